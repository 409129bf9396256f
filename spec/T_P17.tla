------------------------------- MODULE T_P17 -------------------------------
(* "exact": attention layers run on a given integer pattern with logits in multiples of ln 2;  *)
(*          outputs and gradients recorded in units of 10^-d, judged against exact rationals.    *)
(* "layer": real layers against the dense definition; residuals in units of the rounding bound.   *)
EXTENDS TraceLib, Attn
Pts(r) == {<<b, hd, o, j>> : b \in 0..r.B-1, hd \in 0..r.nh-1, o \in 0..r.Ho-1, j \in 0..r.V-1}
Close(x, y, tol) == Abs(x - y) <= tol
Ex(r) ==
  LET T == TLCEval([p \in Pts(r) |-> Point(r, p[1], p[2], p[3], p[4])])
      D == TLCEval([p \in Pts(r) |-> DL(T[p], GV(r, T[p], p[1], p[2], p[3], p[4]))])
      (* contributions of output points to an input point *)
      Use(b, hd, x) == SetToSeq({p \in Pts(r) : p[1] = b /\ p[2] = hd /\ \E e \in 1..Len(T[p].n) : T[p].n[e] = x})
      Ix(p, x) == CHOOSE e \in 1..Len(T[p].n) : T[p].n[e] = x
      InPts == {<<b, hd, h, w>> : b \in 0..r.B-1, hd \in 0..r.nh-1, h \in 0..r.Hi-1, w \in 0..r.W-1}
  IN
  Req("Output", \A p \in Pts(r) : \A c \in 0..r.dv-1 : Close(At(r.y, r.nh*r.dv, r.Ho, r.V, p[1], p[2]*r.dv + c, p[3], p[4]), Out(r, T[p], p[1], p[2]*r.dv + c, r.d), r.tol))
  \cup Req("QueryGradient", r.dq = <<>> \/ \A p \in Pts(r) : \A c \in 0..r.dk-1 : Close(At(r.dq, r.nh*r.dk, r.Ho, r.V, p[1], p[2]*r.dk + c, p[3], p[4]), DQ(r, T[p], D[p], p[1], p[2]*r.dk + c, r.d), r.tol))
  \cup Req("ValueGradient", r.dvv = <<>> \/ \A x \in InPts : LET U == Use(x[1], x[2], <<x[3], x[4]>>) IN \A c \in 0..r.dv-1 :
       Close(At(r.dvv, r.nh*r.dv, r.Hi, r.W, x[1], x[2]*r.dv + c, x[3], x[4]),
             SumN(Len(U), LAMBDA u : FixDiv(T[U[u]].a[Ix(U[u], <<x[3], x[4]>>)] * At(r.gy, r.nh*r.dv, r.Ho, r.V, x[1], x[2]*r.dv + c, U[u][3], U[u][4]), T[U[u]].den, r.d)), r.tol + Len(U)))
  \cup Req("KeyGradient", r.dkk = <<>> \/ \A x \in InPts : LET U == Use(x[1], x[2], <<x[3], x[4]>>) IN \A c \in 0..r.dk-1 :
       Close(At(r.dkk, r.nh*r.dk, r.Hi, r.W, x[1], x[2]*r.dk + c, x[3], x[4]),
             SumN(Len(U), LAMBDA u : FixDiv(D[U[u]][Ix(U[u], <<x[3], x[4]>>)] * At(r.q, r.nh*r.dk, r.Ho, r.V, x[1], x[2]*r.dk + c, U[u][3], U[u][4]), T[U[u]].den * T[U[u]].den, r.d)), r.tol + Len(U)))
Failed(r) ==
  CASE r.op = "exact" -> Req("Shape", r.shok) \cup Req("InputUnchanged", r.inok) \cup Req("NothingElse", r.rest = 0) \cup (IF r.shok THEN Ex(r) ELSE {})
    [] r.op = "layer" -> Req("Shape", r.shok) \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok) \cup Req("Finite", r.fin)
       \cup Req("LayerOutput", r.ry >= 0 /\ r.ry <= 100) \cup Req("LayerGradients", \A e \in 1..Len(r.rg) : r.rg[e] >= 0 /\ r.rg[e] <= 100) \cup Req("AllGradients", r.gok)
    [] OTHER -> {"UnknownOp"}
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
