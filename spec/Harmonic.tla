------------------------------ MODULE Harmonic ------------------------------
(* Configurations of the serial harmonic transforms.  The machine builds a transform from a *)
(* requested truncation and then runs synthesis and analysis on an abstract coefficient: the  *)
(* coefficient (l,m) survives iff the grid resolves it.                                        *)
EXTENDS Rules, TLC, Json, FiniteSets
CONSTANTS Lats, Lons, Grids, LReqs, MReqs
VARIABLES nlat, nlon, grid, lreq, mreq, L, pc, got
vars == <<nlat, nlon, grid, lreq, mreq, L, pc, got>>
Init == /\ nlat \in Lats /\ nlon \in Lons /\ grid \in Grids /\ lreq \in LReqs /\ mreq \in MReqs
        /\ nlat >= 2 /\ L = 0 /\ pc = "new" /\ got = {}
Build == pc = "new" /\ L' = Limit(nlat, nlon, lreq, mreq, grid) /\ pc' = "built" /\ UNCHANGED <<nlat, nlon, grid, lreq, mreq, got>>
(* orders seen after sampling: those of which some m aliases to the sampled order *)
Run == /\ pc = "built" /\ pc' = "done" /\ UNCHANGED <<nlat, nlon, grid, lreq, mreq, L>>
       /\ got' = {m \in 0..L-1 : m < GridMmax(nlon) /\ \A m2 \in 0..L-1 : m2 = m \/ ~Aliases(m, m2, nlon)}
Next == Build \/ Run
(* the default limits are resolved by the grid and are the largest such *)
DefaultIsExact == (pc = "done" /\ lreq = 0 /\ mreq = 0) => Exact(grid, nlat, nlon, L) /\ got = 0..L-1
DefaultIsLargest == (pc = "done" /\ lreq = 0 /\ mreq = 0) => ~Exact(grid, nlat, nlon, L+1)
RequestBounds == pc = "done" => (lreq > 0 => L <= lreq) /\ (mreq > 0 => L <= mreq)
ExactMeansAll == (pc = "done" /\ Exact(grid, nlat, nlon, L)) => got = 0..L-1
Scn == pc = "done" => PrintT("SCN " \o ToJson([nlat |-> nlat, nlon |-> nlon, grid |-> grid, lreq |-> lreq, mreq |-> mreq, L |-> L, exact |-> Exact(grid, nlat, nlon, L)]))
=============================================================================
