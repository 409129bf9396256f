------------------------------- MODULE T_P13 -------------------------------
(* Judges quadrature rules, grids and spherical integrals.  Residuals in ulps of the scale.  *)
EXTENDS TraceLib, Rules
Tol(dt) == IF dt = "f64" THEN 1000000 ELSE 64
Near(x, dt) == x >= 0 /\ x <= Tol(dt)
RuleC(r) ==
  Req("Count", r.count = r.n) \cup Req("StrictlyOrdered", r.ordered) \cup Req("InsideInterval", r.inside)
  \cup Req("NodesSymmetric", r.periodic \/ Near(r.nsym, "f64")) \cup Req("WeightsSymmetric", Near(r.wsym, "f64"))
  \cup Req("WeightsPositive", r.pos) \cup Req("DoublePrecision", r.dtok)
  \cup Req("Nodes", Near(r.nodes, "f64")) \cup Req("Weights", Near(r.weights, "f64"))
  \cup Req("ExactUpToDegree", LET D == IF r.periodic THEN 0 ELSE Exactness(r.grid, r.n) IN
         Len(r.mom) > D /\ \A d \in 0..D : Near(r.mom[d+1], "f64"))
  \cup Req("OddDegreesVanish", ~r.periodic => \A d \in 1..Len(r.mom)-1 : d % 2 = 1 => Near(r.mom[d+1], "f64"))
LatC(r) ==
  Req("Count", r.count = r.n) \cup Req("NorthToSouth", r.ordered) \cup Req("InsideSphere", r.inside)
  \cup Req("Colatitudes", Near(r.nodes, "f64")) \cup Req("Weights", Near(r.weights, "f64"))
  \cup Req("Poles", r.grid # "legendre-gauss" => r.poles) \cup Req("DoublePrecision", r.dtok)
LonC(r) == Req("Count", r.count = r.n) \cup Req("Equispaced", Near(r.nodes, "f64")) \cup Req("StartsAtZero", r.zero)
  \cup Req("MeridianOnce", r.inside) \cup Req("DoublePrecision", r.dtok)
IntC(r) == Req("Shape", r.sh = r.lead) \cup Req("WeightedSum", Near(r.val, "f32")) \cup Req("Linear", Near(r.lin, "f32"))
  \cup Req("Gradient", Near(r.grad, "f32")) \cup Req("ConstantIsArea", Near(r.area, "f32"))
  \cup Req("HarmonicsIntegrateToZero", Near(r.harm, "f32")) \cup Req("InputUnchanged", r.inok) \cup Req("FieldPrecisionKept", r.dtok /\ Near(r.prec, "f64"))
Failed(r) == CASE r.op = "rule" -> RuleC(r) [] r.op = "lat" -> LatC(r) [] r.op = "lon" -> LonC(r) [] r.op = "int" -> IntC(r) [] OTHER -> {"UnknownOp"}
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
