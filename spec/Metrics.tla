------------------------------- MODULE Metrics -------------------------------
(* Scores and losses of labelled grids.  A point is <<sample, row, predicted class, true class>>, true  *)
(* class 0 = ignored.  w[row]: area of one point of that row (integers; a whole grid adds up to about S). *)
EXTENDS Integers, Sequences, FiniteSets
S == 10000
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumF(f, D \ {x})
Area(P, w, Sel(_)) == LET I == {k \in 1..Len(P) : Sel(P[k])} IN SumF([k \in I |-> w[P[k][2]]], I)
TP(P, w, b, c) == Area(P, w, LAMBDA p : p[1] = b /\ p[3] = c /\ p[4] = c)
FP(P, w, b, c) == Area(P, w, LAMBDA p : p[1] = b /\ p[3] = c /\ p[4] # c /\ p[4] # 0)
FN(P, w, b, c) == Area(P, w, LAMBDA p : p[1] = b /\ p[3] # c /\ p[4] = c)
TN(P, w, b, c) == Area(P, w, LAMBDA p : p[1] = b /\ p[3] # c /\ p[4] # c /\ p[4] # 0)
Ign(P, w, b) == Area(P, w, LAMBDA p : p[1] = b /\ p[4] = 0)
All(P, w, b) == Area(P, w, LAMBDA p : p[1] = b)
(* weighted sums over samples and classes *)
Tot(F(_, _), B, C, wt) == SumF([x \in (1..B) \X (1..C) |-> wt[x[2]] * F(x[1], x[2])], (1..B) \X (1..C))
TotC(F(_, _), B, c) == SumF([b \in 1..B |-> F(b, c)], 1..B)
Frac(n, d) == (n * S) \div d  \* in units of 1/S; n <= d < 2^17
(* scores: 0..S, or -1 where undefined *)
Micro(N(_, _), D(_, _), B, C, wt) == LET d == Tot(D, B, C, wt) IN IF d = 0 THEN -1 ELSE Frac(Tot(N, B, C, wt), d)
Macro(N(_, _), D(_, _), B, C, wt) == LET sc(c) == IF TotC(D, B, c) = 0 THEN 0 ELSE Frac(TotC(N, B, c), TotC(D, B, c)) IN SumF([c \in 1..C |-> wt[c] * sc(c)], 1..C)
IoU(P, w, B, C, wt, macro) == LET n(b, c) == TP(P, w, b, c)
                                  d(b, c) == TP(P, w, b, c) + FP(P, w, b, c) + FN(P, w, b, c)
                              IN IF macro THEN Macro(n, d, B, C, wt) ELSE Micro(n, d, B, C, wt)
Acc(P, w, B, C, wt, macro) == LET n(b, c) == TP(P, w, b, c) + TN(P, w, b, c)
                                  d(b, c) == TP(P, w, b, c) + TN(P, w, b, c) + FP(P, w, b, c) + FN(P, w, b, c)
                              IN IF macro THEN Macro(n, d, B, C, wt) ELSE Micro(n, d, B, C, wt)
(* dice of certain predictions; per sample; macro: per class; smooth in units of 1/S; -1 where undefined; result: sum over samples *)
DiceB(P, w, b, C, wt, macro, s, unw) ==
  IF macro THEN LET d(c) == 2 * TP(P, w, b, c) + FP(P, w, b, c) + FN(P, w, b, c) + s
                IN IF \E c \in 1..C : d(c) = 0 THEN -1 ELSE SumF([c \in 1..C |-> wt[c] * Frac(2 * TP(P, w, b, c) + s, d(c))], 1..C)
  ELSE LET m == IF unw THEN C ELSE 4  \* class weights are given in quarters
           n == SumF([c \in 1..C |-> wt[c] * 2 * TP(P, w, b, c)], 1..C) + m * s
           d == SumF([c \in 1..C |-> wt[c] * (2 * TP(P, w, b, c) + FP(P, w, b, c) + FN(P, w, b, c))], 1..C) + m * s
       IN IF d = 0 THEN -1 ELSE Frac(n, d)
(* area of wrong points, weighted by the class of the truth: cross entropy of certain predictions in units of the logit *)
Wrong(P, w, B, C, wt) == Tot(LAMBDA b, c : FN(P, w, b, c), B, C, wt)
Abs(x) == IF x < 0 THEN -x ELSE x
(* integrals of the error when the class numbers are read as field values *)
Err(P, w, b, pw, masked) == LET I == {k \in 1..Len(P) : P[k][1] = b /\ (masked => P[k][4] # 0)}
                            IN SumF([k \in I |-> w[P[k][2]] * (IF pw = 1 THEN Abs(P[k][3] - P[k][4]) ELSE (P[k][3] - P[k][4]) * (P[k][3] - P[k][4]))], I)
MaskArea(P, w, b) == All(P, w, b) - Ign(P, w, b)
=============================================================================
