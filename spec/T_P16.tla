------------------------------- MODULE T_P16 -------------------------------
(* Judges the filters that convolution layers apply.  "filter": the whole operator read off   *)
(* impulses against the reference (residuals in 1e-9 of the row's scale); "pole": exact        *)
(* piecewise linear values around the north pole.                                                *)
EXTENDS TraceLib, Filter
(* radial Zernike polynomials of high degree cancel: their factorials carry single precision *)
Tol(r) == IF r.t = "zernike" /\ r.k0 > 6 THEN 1000000 ELSE IF r.t = "zernike" /\ r.k0 > 5 THEN 20000 ELSE 1000
Filt(r) ==
  Req("KernelSize", r.ksize = Size(r.t, r.k0, r.k1)) \cup Req("IsotropicMask", r.iso = [k \in 1..Len(r.iso) |-> Iso(r.t, Basis(r.t, r.k0, r.k1)[k])] /\ Len(r.iso) = Size(r.t, r.k0, r.k1))
  \cup Req("OutsideCutoffIsZero", r.extra = 0) \cup Req("InsideCutoffPresent", r.missing = 0)
  \cup Req("FilterValues", r.val >= 0 /\ r.val <= Tol(r)) \cup Req("EveryLongitude", r.shift >= 0 /\ r.shift <= Tol(r))
  \cup Req("Finite", r.finite) \cup Req("WeightInit", r.init)
Pole(r) == LET B == PL(r.k0, r.k1) IN
  Req("PoleValues", \A k \in 1..Len(B) : \A h \in 1..r.H-1 : \A w \in 0..r.W-1 :
     Abs(r.v[k][h+1][w+1] - PLval(r.k0, r.k1, r.cm, r.W, B[k], h, w)) <= 1)
Failed(r) == CASE r.op = "filter" -> Filt(r) [] r.op = "pole" -> Pole(r) [] OTHER -> {"UnknownOp"}
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
