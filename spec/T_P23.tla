------------------------------- MODULE T_P23 -------------------------------
EXTENDS TraceLib, Rotation
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  CASE r.op \in {"sht", "vsht"} ->
        Req("PhaseQuarter", Phased(r.re, r.im, r.re2, r.im2, r.M, r.ni, r.si, r.tol)) \cup Req("Phase", r.ph <= 1)
        \cup Req("GradientRotates", Rotated(r.g, r.g2, r.ni, r.si, r.tol))
    [] r.op \in {"isht", "ivsht"} -> Req("Rotates", Rotated(r.y, r.y2, r.no, r.so, r.tol)) \cup Req("GradientPhase", r.ph <= 1)
    [] r.op = "quad" -> Req("Invariant", Same(r.y, r.y2, r.tol)) \cup Req("GradientRotates", Rotated(r.g, r.g2, r.ni, r.si, r.tol))
    [] OTHER -> Req("Corresponding", Corr(r.ni, r.no, r.si, r.so)) \cup Req("Rotates", Rotated(r.y, r.y2, r.no, r.so, r.tol))
        \cup Req("GradientRotates", Rotated(r.g, r.g2, r.ni, r.si, r.tol)) \cup Req("ParameterGradientInvariant", r.pg <= 1)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
