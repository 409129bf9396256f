------------------------------ MODULE MetricsMC ------------------------------
(* all (or randomly drawn) labelled grids, one point at a time *)
EXTENDS Metrics, TLC, Json
CONSTANTS Hs, Ws, Bs, Cs
VARIABLES H, W, B, C, P
vars == <<H, W, B, C, P>>
N == B * H * W
Init == H \in Hs /\ W \in Ws /\ B \in Bs /\ C \in Cs /\ P = <<>>
Next == /\ Len(P) < N
        /\ \E p \in 1..C, t \in 0..C : P' = Append(P, <<Len(P) \div (H * W) + 1, (Len(P) % (H * W)) \div W + 1, p, t>>)
        /\ UNCHANGED <<H, W, B, C>>
w == [r \in 1..H |-> r + 2]
one == [c \in 1..C |-> 1]
Full == Len(P) = N
Partition == \A b \in 1..B, c \in 1..C : TP(P, w, b, c) + FP(P, w, b, c) + FN(P, w, b, c) + TN(P, w, b, c) + Ign(P, w, b) = All(P, w, b)
(* the truth predicted everywhere: perfect scores, no loss *)
Q == [k \in 1..Len(P) |-> <<P[k][1], P[k][2], IF P[k][4] = 0 THEN P[k][3] ELSE P[k][4], P[k][4]>>]
Perfect == Full => (IoU(Q, w, B, C, one, FALSE) \in {-1, S} /\ Acc(Q, w, B, C, one, FALSE) \in {-1, S} /\ Wrong(Q, w, B, C, one) = 0)
(* predictions at ignored points do not matter *)
Z == [k \in 1..Len(P) |-> <<P[k][1], P[k][2], IF P[k][4] = 0 THEN 1 ELSE P[k][3], P[k][4]>>]
IgnoredDontMatter == Full => (IoU(Z, w, B, C, one, TRUE) = IoU(P, w, B, C, one, TRUE) /\ Acc(Z, w, B, C, one, TRUE) = Acc(P, w, B, C, one, TRUE)
                              /\ \A b \in 1..B : DiceB(Z, w, b, C, one, FALSE, 0, TRUE) = DiceB(P, w, b, C, one, FALSE, 0, TRUE))
Scn == Full => PrintT("SCN " \o ToJson([H |-> H, W |-> W, B |-> B, C |-> C, P |-> P]))
=============================================================================
