------------------------------ MODULE DistOps ------------------------------
(* Distributed quadrature, resampling and spectral convolution as machines over ownership.  *)
(*  quad:     every rank sums the points it owns; the polar and the azimuth reduction give   *)
(*            every rank every point exactly once.                                            *)
(*  resample: the tensor (c,y,x) starts sharded (n,p,a); interpolation along a dimension is   *)
(*            allowed only while it is whole, pole rows are means over whole longitude rings,  *)
(*            and the result ends sharded (n,p,a).                                             *)
(*  spectral: products <<l,m,i,o>> of the channel mixing are computed by the owner of (l,m)   *)
(*            only; the weight of degree l lives on the polar rank owning l and its gradient   *)
(*            is the sum over the azimuth ranks.                                               *)
EXTENDS Partition, TLC, Json, FiniteSets
CONSTANTS PSet, ASet, Hs, Ws, Chans
VARIABLES op, np, na, hin, win, hout, wout, c, expand, pc, own, size, ok, have
vars == <<op, np, na, hin, win, hout, wout, c, expand, pc, own, size, ok, have>>
Rk == (1..np) \X (1..na)
Pts == (0..hin-1) \X (0..win-1)
Own0 == [c |-> "n", y |-> "p", x |-> "a"]
Prog == CASE op = "quad" -> <<"local", "redp", "reda">>
          [] op = "resample" -> <<"p:c<y", "poles", "lat", "p:y<c", "a:c<x", "lon", "a:x<c">>
          [] op = "spectral" -> <<"sht", "mix", "isht">>
Init == /\ op \in {"quad", "resample", "spectral"} /\ np \in PSet /\ na \in ASet
        /\ hin \in Hs /\ win \in Ws /\ hout \in Hs /\ wout \in Ws /\ c \in Chans /\ expand \in BOOLEAN
        /\ hin >= np /\ hout >= np /\ win >= na /\ wout >= na
        /\ (op = "quad" => hout = hin /\ wout = win /\ ~expand)
        /\ (op = "resample" => c >= np /\ c >= na)
        /\ (op = "spectral" => hin >= na /\ hout >= na /\ ~expand)
        /\ pc = 1 /\ ok = TRUE /\ own = Own0 /\ size = [c |-> c, y |-> hin, x |-> win]
        /\ have = [r \in Rk |-> {}]
G(g) == IF g = "p" THEN np ELSE na
Tr(g, d0, d1) == /\ own' = [own EXCEPT ![d0] = g, ![d1] = "n"] /\ UNCHANGED <<size, have>>
                 /\ ok' = (ok /\ own[d1] = g /\ own[d0] = "n" /\ size[d0] >= G(g))
L == MinI(hin, hout)
Mine(r) == Chunk(hin, np, r[1]) \X Chunk(win, na, r[2])
MixOf(r) == Chunk(L, np, r[1]) \X Chunk(L, na, r[2])
Disjoint(S) == \A r, q \in S : r # q => have[r] \cap have[q] = {}
Step == /\ pc <= Len(Prog) /\ pc' = pc + 1 /\ UNCHANGED <<op, np, na, hin, win, hout, wout, c, expand>>
  /\ LET s == Prog[pc] IN
     CASE s = "local" -> have' = [r \in Rk |-> Mine(r)] /\ UNCHANGED <<own, size, ok>>
       [] s = "redp" -> /\ ok' = (ok /\ \A a \in 1..na : Disjoint({r \in Rk : r[2] = a}))
                        /\ have' = [r \in Rk |-> UNION {have[q] : q \in {q \in Rk : q[2] = r[2]}}] /\ UNCHANGED <<own, size>>
       [] s = "reda" -> /\ ok' = (ok /\ \A p \in 1..np : Disjoint({r \in Rk : r[1] = p}))
                        /\ have' = [r \in Rk |-> UNION {have[q] : q \in {q \in Rk : q[1] = r[1]}}] /\ UNCHANGED <<own, size>>
       [] s = "p:c<y" -> Tr("p", "c", "y")
       [] s = "p:y<c" -> Tr("p", "y", "c")
       [] s = "a:c<x" -> Tr("a", "c", "x")
       [] s = "a:x<c" -> Tr("a", "x", "c")
       \* pole rows: the mean over the ring needs the outermost rows (whole y) and a sum over the azimuth group
       [] s = "poles" -> ok' = (ok /\ own.y = "n" /\ (expand => \A p \in 1..np : UNION {Chunk(win, na, a) : a \in 1..na} = 0..win-1)) /\ UNCHANGED <<own, size, have>>
       [] s = "lat" -> ok' = (ok /\ own.y = "n") /\ size' = [size EXCEPT !.y = hout] /\ UNCHANGED <<own, have>>
       [] s = "lon" -> ok' = (ok /\ own.x = "n") /\ size' = [size EXCEPT !.x = wout] /\ UNCHANGED <<own, have>>
       [] s = "sht" -> size' = [size EXCEPT !.y = L, !.x = L] /\ UNCHANGED <<own, ok, have>>
       [] s = "mix" -> have' = [r \in Rk |-> MixOf(r)] /\ UNCHANGED <<own, size, ok>>
       [] s = "isht" -> ok' = (ok /\ Disjoint(Rk)) /\ size' = [size EXCEPT !.y = hout, !.x = wout] /\ UNCHANGED <<own, have>>
Next == Step
Done == pc = Len(Prog) + 1
Admissible == ok
Final == Done =>
  CASE op = "quad" -> \A r \in Rk : have[r] = Pts
    [] op = "resample" -> own = Own0 /\ size = [c |-> c, y |-> hout, x |-> wout]
    [] op = "spectral" -> /\ own = Own0 /\ size = [c |-> c, y |-> hout, x |-> wout]
                          /\ UNION {have[r] : r \in Rk} = (0..L-1) \X (0..L-1)
                          \* the degrees a rank mixes are the degrees whose weight it stores; per degree the azimuth sum is complete
                          /\ \A r \in Rk : {t[1] : t \in have[r]} = Chunk(L, np, r[1])
                          /\ \A l \in 0..L-1 : UNION {{t[2] : t \in {u \in have[r] : u[1] = l}} : r \in Rk} = 0..L-1
Scn == Done => PrintT("SCN " \o ToJson([op |-> op, np |-> np, na |-> na, hin |-> hin, win |-> win, hout |-> hout, wout |-> wout, c |-> c, expand |-> expand]))
=============================================================================
