------------------------------- MODULE T_P14 -------------------------------
EXTENDS TraceLib, Fourier, Rules
Tol(dt) == IF dt = "f64" THEN 20000 ELSE 2000
Near(x, dt) == x >= 0 /\ x <= Tol(dt)
MinQ(a, b) == IF a < b THEN a ELSE b
Lim(r) == LET L == Limit(r.nlat, r.nlon, r.lreq, r.mreq, r.grid)
              S == MinQ(Limit(r.nlat, r.nlon, 0, 0, r.grid), Limit(r.nlat2, r.nlon2, 0, 0, r.grid2)) IN
  Req("FunctionLimits", r.fn = <<L, L>>)
  \cup Req("SameInEveryTransform", \A k \in 1..Len(r.sht) : r.sht[k] = <<L, L>>)
  \cup Req("CoefficientShape", \A k \in 1..Len(r.shape) : r.shape[k] = <<L, L>>)
  \cup Req("SpectralConvCommonLimit", \A k \in 1..Len(r.conv) : r.conv[k] = <<S, S>>)
  \cup Req("RandomFieldLimit", \A k \in 1..Len(r.grf) : r.grf[k] = <<Limit(r.nlat, 2 * r.nlat, 0, 0, r.grid), Limit(r.nlat, 2 * r.nlat, 0, 0, r.grid)>>)
ModesOf(r) == IF r.nm = 0 THEN Avail(r.n) ELSE r.nm
Fwd(r) ==
  Req("ForwardShape", r.fsh = [k \in 1..Len(r.xsh) |-> IF k = r.dim THEN ModesOf(r) ELSE r.xsh[k]])
  \cup Req("LeadingModes", Near(r.fres, r.dt)) \cup Req("ZeroPadding", r.fpad) \cup Req("ForwardGradient", Near(r.fgrad, r.dt))
  \cup Req("RoundTrip", (r.nm = 0 \/ r.nm >= Avail(r.n)) => Near(r.rt, r.dt))
  \cup Req("ProjectionOtherwise", Near(r.proj, r.dt))
Bwd(r) ==
  Req("InverseShape", r.bsh = [k \in 1..Len(r.msh) |-> IF k = r.dim THEN r.n ELSE r.msh[k]])
  \cup Req("Inverse", Near(r.bres, r.dt)) \cup Req("InverseGradient", Near(r.bgrad, r.dt)) \cup Req("DefaultLength", r.dfl)
Ex(r) == Req("ExactModesReal", r.re = DftRe(r.x, r.n, r.nm)) \cup Req("ExactModesImag", r.im = DftIm(r.x, r.n, r.nm))
  \cup Req("ExactInverse", r.y = Inverse(r.mre, r.mim, r.n))
Failed(r) == IF r.op = "lim" THEN Lim(r) ELSE IF r.op = "exact" THEN Ex(r)
             ELSE Fwd(r) \cup Bwd(r) \cup Req("InputUnchanged", r.inok) \cup Req("Dtype", r.dtok)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
