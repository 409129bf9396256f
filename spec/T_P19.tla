------------------------------- MODULE T_P19 -------------------------------
(* "equi": integer fields between equiangular grids, exact; "lin": any grids, fixed point;      *)
(* "res": residuals against the float64 definition (values, gradients, linearity) in units of     *)
(* the rounding bound.                                                                               *)
EXTENDS TraceLib, Resample
Equi(r) == Req("Output", \A a \in 1..r.Ho, b \in 1..r.V : Abs(r.y[a][b]*((r.Ho-1)*r.V) - 1000*EquiNum(r.x, r.Ho, r.V, a-1, b-1)) <= ((r.Ho-1)*r.V))
Lin(r) == LET y == Resampled([a \in 1..Len(r.x) |-> [b \in 1..Len(r.x[1]) |-> 1000*r.x[a][b]]], r.ti, r.to, r.V) IN
  Req("Output", \A a \in 1..r.Ho, b \in 1..r.V : Abs(r.y[a][b] - y[a][b]) <= 8)
Failed(r) ==
  Req("Shape", r.shok) \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok) \cup
  (IF ~r.shok THEN {} ELSE CASE r.op = "equi" -> Equi(r) [] r.op = "lin" -> Lin(r)
    [] r.op = "res" -> Req("Value", r.ry >= 0 /\ r.ry <= 20) \cup Req("Gradient", r.rg >= 0 /\ r.rg <= 50) \cup Req("Finite", r.fin) \cup Req("Range", r.range) \cup Req("Coincidence", r.coin >= 0 /\ r.coin <= 20)
    [] OTHER -> {"UnknownOp"})
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
