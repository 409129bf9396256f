------------------------------- MODULE T_P25 -------------------------------
(* r.P labelled points, r.w area of a point per row, r.wt class weights (quarters), measured values in units of 1/S (-1: not a number) *)
EXTENDS TraceLib
M == INSTANCE Metrics
S == M!S
Near(a, b, t) == a - b <= t /\ b - a <= t
One(r) == [c \in 1..r.C |-> 1]
(* rounding of the areas: at most half a unit per point *)
Tol == 60
SMean(r, f(_)) == M!SumF([b \in 1..r.B |-> f(b)], 1..r.B)
Score(r, F(_, _)) == LET e == F(IF r.weighted THEN r.wt ELSE One(r), r.macro)
                         d == IF r.macro THEN (IF r.weighted THEN 4 ELSE r.C) ELSE 1
                     IN e \div d
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  IF r.op = "score" THEN
    LET iou == Score(r, LAMBDA t, m : M!IoU(r.P, r.w, r.B, r.C, t, m))
        acc == Score(r, LAMBDA t, m : M!Acc(r.P, r.w, r.B, r.C, t, m))
    IN Req("IoU", iou < 0 \/ Near(r.iou, iou, Tol)) \cup Req("Accuracy", acc < 0 \/ Near(r.acc, acc, Tol))
       \cup Req("Exact", \A k \in 1..Len(r.res) : r.res[k] <= 1) \cup Req("Invariant", r.inv)
  ELSE IF r.op = "dice" THEN
    LET t == IF r.weighted THEN r.wt ELSE One(r)
        D(b) == M!DiceB(r.P, r.w, b, r.C, t, r.macro, r.smooth, ~r.weighted)
        d == IF r.macro THEN (IF r.weighted THEN 4 ELSE r.C) ELSE 1
        bad == \E b \in 1..r.B : D(b) = -1
    IN Req("Dice", bad \/ Near(r.B * (S - r.dice), SMean(r, D) \div d, Tol * r.B)) \cup Req("Exact", bad \/ \A k \in 1..Len(r.res) : r.res[k] <= 1) \cup Req("Invariant", r.inv)
  ELSE IF r.op = "ce" THEN
    LET e == M!Wrong(r.P, r.w, r.B, r.C, IF r.weighted THEN r.wt ELSE One(r)) \div (IF r.weighted THEN 4 ELSE 1)
    IN Req("CrossEntropy", Near(r.B * r.ce, e, Tol * r.B)) \cup Req("Exact", \A k \in 1..Len(r.res) : r.res[k] <= 1) \cup Req("Invariant", r.inv)
  ELSE
    LET E(b) == M!Err(r.P, r.w, b, r.pw, r.masked)
        A(b) == M!MaskArea(r.P, r.w, b)
        V(b) == IF r.masked THEN M!Frac(E(b), A(b)) ELSE E(b)
        bad == r.masked /\ \E b \in 1..r.B : A(b) = 0
    IN Req("Integral", bad \/ Near(r.B * r.val, SMean(r, V), 4 * Tol * r.B)) \cup Req("Exact", bad \/ \A k \in 1..Len(r.res) : r.res[k] <= 1) \cup Req("Invariant", r.inv)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
