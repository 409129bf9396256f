------------------------------ MODULE DistSHT ------------------------------
(* The distributed harmonic transforms as a pipeline of local transforms and re-shardings *)
(* of a tensor with dims c (leading), y (latitude or degree) and x (longitude or order).   *)
(* A local transform along a dimension is only allowed while that dimension is whole.      *)
EXTENDS Trunc, TLC, Json, Sequences
CONSTANTS PSet, ASet, Lats, Lons, Leads, Grids, LReqs
VARIABLES kind, np, na, nlat, nlon, lead, grid, lreq, pc, own, size, sent
vars == <<kind, np, na, nlat, nlon, lead, grid, lreq, pc, own, size, sent>>
L == Limit(nlat, nlon, lreq, 0, grid)
C == MaxI(lead, MaxI(np, na))       \* leading dim after padding
FwdProg == <<"a:c<x", "fft", "a:x<c", "p:c<y", "legendre", "p:y<c", "unpad">>
InvProg == <<"p:c<y", "legendre", "p:y<c", "a:c<x", "fft", "a:x<c", "unpad">>
Prog == IF kind = "fwd" THEN FwdProg ELSE InvProg
Init == /\ kind \in {"fwd", "inv"} /\ np \in PSet /\ na \in ASet /\ nlat \in Lats /\ nlon \in Lons
        /\ lead \in Leads /\ grid \in Grids /\ lreq \in LReqs
        /\ nlat >= np /\ nlon >= na /\ L >= np /\ L >= na
        /\ pc = 1 /\ sent = TRUE
        /\ own = [c |-> "n", y |-> "p", x |-> "a"]
        /\ size = IF kind = "fwd" THEN [c |-> C, y |-> nlat, x |-> nlon] ELSE [c |-> C, y |-> L, x |-> L]
G(g) == IF g = "p" THEN np ELSE na
(* transpose on group g: dim d0 becomes sharded, d1 becomes whole *)
Tr(g, d0, d1) == /\ own' = [own EXCEPT ![d0] = g, ![d1] = "n"]
                 \* what rank q sends to rank r matches what r expects from q
                 /\ sent' = (sent /\ own[d1] = g /\ own[d0] = "n" /\ size[d0] >= G(g) /\
                        \A r, q \in 1..G(g) : ChunkSize(size[d0], G(g), r) > 0 /\ ChunkSize(size[d1], G(g), q) > 0)
                 /\ UNCHANGED size
Step == /\ pc <= Len(Prog)
        /\ LET s == Prog[pc] IN
           CASE s = "a:c<x" -> Tr("a", "c", "x")
             [] s = "a:x<c" -> Tr("a", "x", "c")
             [] s = "p:c<y" -> Tr("p", "c", "y")
             [] s = "p:y<c" -> Tr("p", "y", "c")
             [] s = "fft" -> /\ sent' = (sent /\ own.x = "n") /\ size' = [size EXCEPT !.x = IF kind = "fwd" THEN L ELSE nlon] /\ UNCHANGED own
             [] s = "legendre" -> /\ sent' = (sent /\ own.y = "n") /\ size' = [size EXCEPT !.y = IF kind = "fwd" THEN L ELSE nlat] /\ UNCHANGED own
             [] s = "unpad" -> /\ sent' = (sent /\ own.c = "n") /\ size' = [size EXCEPT !.c = lead] /\ UNCHANGED own
        /\ pc' = pc + 1
        /\ UNCHANGED <<kind, np, na, nlat, nlon, lead, grid, lreq>>
Next == Step
Admissible == sent
Final == pc = Len(Prog) + 1 =>
   /\ own = [c |-> "n", y |-> "p", x |-> "a"]
   /\ size = IF kind = "fwd" THEN [c |-> lead, y |-> L, x |-> L] ELSE [c |-> lead, y |-> nlat, x |-> nlon]
Scn == pc = Len(Prog) + 1 => PrintT("SCN " \o ToJson([kind |-> kind, np |-> np, na |-> na, nlat |-> nlat, nlon |-> nlon, lead |-> lead, grid |-> grid, lreq |-> lreq, L |-> L]))
=============================================================================
