------------------------------- MODULE T_P11 -------------------------------
(* Judges scalar (vec = FALSE) and vector (vec = TRUE) harmonic transforms.                 *)
(* Residuals are in units of the last place of the largest reference value.                  *)
EXTENDS TraceLib, Rules
Tol(dt) == IF dt = "f64" THEN 1000000 ELSE 8000
Near(r, x) == x >= 0 /\ x <= Tol(r.dt)
Comp(r) == IF r.vec THEN <<2>> ELSE <<>>
Failed(r) ==
  LET L == Limit(r.nlat, r.nlon, r.lreq, r.mreq, r.grid) IN
  Req("Limits", r.lmax = L /\ r.mmax = L)
  \cup Req("SynthesisShape", r.synsh = r.lead \o Comp(r) \o <<r.nlat, r.nlon>>)
  \cup Req("AnalysisShape", r.anash = r.lead \o Comp(r) \o <<L, L>>)
  \cup Req("SynthesisIsHarmonicSum", Near(r, r.syn))
  \cup Req("AnalysisIsQuadrature", Near(r, r.ana))
  \cup Req("OrdersAboveDegreeZero", r.upper = 0)
  \cup Req("SynthesisGradient", Near(r, r.gsyn))
  \cup Req("AnalysisGradient", Near(r, r.gana))
  \cup Req("RoundTripExact", Exact(r.grid, r.nlat, r.nlon, L) => Near(r, r.rt))
  \cup Req("SingleCoefficient", Near(r, r.single))
  \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
