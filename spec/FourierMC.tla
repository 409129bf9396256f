------------------------------ MODULE FourierMC ------------------------------
(* Machine: take a signal, analyse, synthesise.  Exhaustive over small integer signals for    *)
(* n \in {1,2,4}; over all (n, modes) for the counting laws; prints replay configurations.     *)
EXTENDS Fourier, Rules, TLC, Json, FiniteSets
CONSTANTS Lens, Modes, Vals, Lats, Lons, Grids, Reqs
VARIABLES st
Init == \/ \E n \in Lens, nm \in Modes : st = [k |-> "fft", n |-> n, nm |-> nm]
        \/ \E n \in {1,2,4} : \E x \in [1..n -> Vals] : st = [k |-> "sig", n |-> n, x |-> x]
        \/ \E a \in Lats, b \in Lons, g \in Grids, l \in Reqs, m \in Reqs : st = [k |-> "lim", nlat |-> a, nlon |-> b, grid |-> g, lreq |-> l, mreq |-> m]
Next == \/ st.k = "sig" /\ st' = [k |-> "spec", n |-> st.n, x |-> st.x, re |-> DftRe(st.x, st.n, Avail(st.n)), im |-> DftIm(st.x, st.n, Avail(st.n))]
        \/ st.k = "spec" /\ st' = [k |-> "back", n |-> st.n, x |-> st.x, y |-> Inverse(st.re, st.im, st.n)]
(* n real numbers carry exactly n degrees of freedom; more modes add nothing *)
Counting == st.k = "fft" => Dof(st.n, Avail(st.n)) = st.n /\ (st.nm >= Avail(st.n) => Dof(st.n, st.nm) = st.n) /\ (st.nm < Avail(st.n) => Dof(st.n, st.nm) < st.n)
               /\ Kept(st.n, st.nm) \cup Padded(st.n, st.nm) = 0..st.nm-1
RoundTrip == st.k = "back" => st.y = [j \in 1..st.n |-> st.n * st.x[j]]
SelfConjReal == st.k = "spec" => \A m \in 0..Avail(st.n)-1 : SelfConj(m, st.n) => st.im[m+1] = 0
Limits == st.k = "lim" => LET L == Limit(st.nlat, st.nlon, st.lreq, st.mreq, st.grid) IN
            /\ (st.lreq > 0 => L <= st.lreq) /\ (st.mreq > 0 => L <= st.mreq) /\ (st.mreq = 0 => L <= Avail(st.nlon))
            /\ (st.lreq = 0 /\ st.grid # "equiangular-trapezoidal" => ResolvesDegrees(st.grid, st.nlat, L))
Scn == (st.k \in {"fft", "lim"} => PrintT("SCN " \o ToJson(st)))
=============================================================================
