------------------------------ MODULE SolverMC ------------------------------
EXTENDS Solver, TLC, Json
CONSTANTS Len0, Tend
VARIABLES D, h, s
Init == D \in {1, 2} /\ h = <<>> /\ s = [u |-> 3, f |-> <<>>]
Next == /\ Len(h) < Len0 /\ UNCHANGED D
        /\ \/ \E t \in Tend : h' = Append(h, t) /\ s' = StepS(D, 28, s, t)
           \/ h # <<>> /\ h[Len(h)] # -99 /\ h' = Append(h, -99) /\ s' = Call(s)
Same == s.u = Final(D, 28, 3, h)
(* constant tendencies without damping give straight lines whatever the number of steps and calls: every formula is consistent *)
Steps == Len(SelectSeq(h, LAMBDA x : x # -99))
Consistent == (D = 1 /\ \E t \in Tend : \A k \in 1..Len(h) : h[k] \in {t, -99}) => \A t \in Tend : (\A k \in 1..Len(h) : h[k] \in {t, -99}) => \A a \in {18, 28} : Final(1, a, 3, h) = 3 + 12 * Steps * t
Scn == (h = <<>> \/ h[Len(h)] # -99) => PrintT("SCN " \o ToJson([D |-> D, h |-> h]))
=============================================================================
