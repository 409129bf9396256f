----------------------------- MODULE Lifecycle -----------------------------
EXTENDS LifecycleOps, TLC, Json, FiniteSets
CONSTANTS Depth, Uses
VARIABLES s, hist
vars == <<s, hist>>
Regs == {<<"P","A">>, <<"P","-">>, <<"-","A">>, <<"-","-">>, <<"W","-">>, <<"-","W">>, <<"S","A">>, <<"P","S">>}
OpsOf == {[k |-> "init", p |-> r[1], a |-> r[2]] : r \in {r \in Regs : Live(s, r[1]) /\ Live(s, r[2])}}
   \cup {[k |-> "fin"], [k |-> "dbg", v |-> TRUE], [k |-> "dbg", v |-> FALSE], [k |-> "env", v |-> TRUE]}
   \cup {[k |-> "use", w |-> u] : u \in Uses}
Init == s = S0 /\ hist = <<>>
Next == \E o \in OpsOf : Len(hist) < Depth /\ s' = Apply(s, o) /\ hist' = Append(hist, o)
(* what must hold in every reachable state *)
NothingRegisteredWhenDown == ~s.ini => s.pol = "-" /\ s.az = "-"
NeverADeadGroup == Live(s, s.pol) /\ Live(s, s.az)
DestroyedOnce == \A x, y \in 1..Len(s.dead) : x # y => s.dead[x] # s.dead[y]
Sizes == SizeOf(s.pol) >= 1 /\ SizeOf(s.az) >= 1
Ranks == \A w \in 0..NW-1 : RankOf(s.pol, w) \in 0..SizeOf(s.pol)-1 /\ RankOf(s.az, w) \in 0..SizeOf(s.az)-1
Scn == Len(hist) = Depth => PrintT("SCN " \o ToJson([h |-> hist]))
=============================================================================
