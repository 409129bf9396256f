------------------------------ MODULE PurityMC ------------------------------
EXTENDS Purity, FiniteSets, TLC, Json
CONSTANTS Len0
VARIABLES h, ps
Names1 == {"mode", "noise", "cast", "mutout", "bad"}
Acts == {<<n, k, x>> : n \in {"fwd", "bwd"}, k \in 1..Len(ps), x \in 1..2} \cup {<<n, k, 1>> : n \in {"lay", "bat", "ng", "wide"}, k \in 1..Len(ps)}
        \cup {<<n, k, 0>> : n \in Names1, k \in 1..Len(ps)} \cup {<<"upd", k, v>> : k \in 1..Len(ps), v \in 1..2}
        \cup (IF Len(ps) < MaxH THEN {<<n, k, 0>> : n \in {"copy", "save", "pickle"}, k \in 1..Len(ps)} ELSE {})
Init == h = <<>> /\ ps = Start
Next == Len(h) < Len0 /\ \E a \in Acts : (a[1] = "upd" => ps[a[2]][1] # a[3]) /\ h' = Append(h, a) /\ ps' = Step(ps, a).ps
(* removing any action that is not an update or a new handle changes no other observation *)
Pure == \A k \in 1..Len(h) : h[k][1] \notin {"upd", "copy", "save", "pickle", "cast"} =>
           LET g == SubSeq(h, 1, k-1) \o SubSeq(h, k+1, Len(h)) IN \A j \in 1..Len(g) : Outs(g)[j] = Outs(h)[IF j < k THEN j ELSE j+1]
(* an update of one handle never reaches another: dropping it changes only later observations of handles that carry its version *)
Separate == \A k \in 1..Len(h) : (h[k][1] = "upd" /\ \A j \in k+1..Len(h) : h[j][1] \notin {"copy", "save", "pickle", "upd"}) =>
           LET g == SubSeq(h, 1, k-1) \o SubSeq(h, k+1, Len(h)) IN \A j \in k+1..Len(h) : h[j][2] # h[k][2] => Outs(g)[j-1] = Outs(h)[j]
(* systematic short histories: observe, do anything, observe again in the same way; in training or evaluation mode *)
Observe == {"fwd", "bwd", "lay", "bat", "ng", "wide"}
Core(g) == IF Len(g) > 0 /\ g[1] = <<"mode", 1, 0>> THEN Tail(g) ELSE g
Shape(g) == LET c == Core(g) IN /\ Len(c) <= 3
                                /\ Len(c) >= 1 => c[1][1] \in Observe /\ c[1][3] = 1
                                /\ Len(c) = 3 => c[3][1] = c[1][1] /\ c[3][3] = 1
NextSys == Next /\ Shape(h')
ScnSys == Len(Core(h)) = 3 => PrintT("SCN " \o ToJson([h |-> h]))
Scn == (Len(h) = Len0 /\ h[Len0][1] \in {"fwd", "bwd", "wide"} /\ Cardinality({h[k][1] : k \in 1..Len0}) >= 3) => PrintT("SCN " \o ToJson([h |-> h]))
=============================================================================
