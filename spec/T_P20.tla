------------------------------- MODULE T_P20 -------------------------------
(* "coef": fields synthesised from given coefficients; output coefficients recorded in 10^-3,     *)
(*         judged by the spectral definition.  "res": arbitrary fields, residuals against the        *)
(*         definition (transform, per-degree mixing, inverse) and of all gradients.                    *)
EXTENDS TraceLib, SpecConv
Abs(x) == IF x < 0 THEN -x ELSE x
Ix3(a, b, c, d2, d3) == (a*d2 + b)*d3 + c + 1
Coef(r) ==
  LET U(c, l, m) == r.u[Ix3(c, l, m, r.L, r.L)]
      B(c, l, m) == r.b[Ix3(c, l, m, r.L, r.L)]
      N(c) == r.n[c+1]
      K(g, i0, o, l) == r.kk[((g*(r.C \div r.G) + i0)*(r.O \div r.G) + o)*r.L + l + 1]
      X(c, l, m) == LET bb == B(c, l, m) IN CAdd(U(c, l, m), <<1000*N(c)*bb[1], 1000*N(c)*bb[2]>>)
      Want(o, l, m) == Shown(Mixed(X, K, r.C, r.O, r.G, o, l, m), l, m, r.V) IN
  Req("Coefficients", \A o \in 0..r.O-1, l \in 0..r.L-1, m \in 0..r.L-1 : m <= l => LET w == Want(o, l, m)  y == r.y[Ix3(o, l, m, r.L, r.L)] IN Abs(y[1]-w[1]) <= r.tol /\ Abs(y[2]-w[2]) <= r.tol)
  \cup Req("NothingOutside", r.out >= 0 /\ r.out <= 100)
Failed(r) ==
  Req("Limits", r.L = SpecLimit(r.Hi, r.W, r.gi, r.Ho, r.V, r.go)) \cup Req("Shape", r.shok) \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok) \cup
  (IF ~r.shok THEN {} ELSE CASE r.op = "coef" -> Coef(r)
    [] r.op = "res" -> Req("Value", r.ry >= 0 /\ r.ry <= 100) \cup Req("Gradients", \A e \in 1..Len(r.rg) : r.rg[e] >= 0 /\ r.rg[e] <= 100) \cup Req("Finite", r.fin) \cup Req("AllGradients", r.gok)
    [] OTHER -> {"UnknownOp"})
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
