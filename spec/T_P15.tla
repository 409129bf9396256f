------------------------------- MODULE T_P15 -------------------------------
(* Exact judgement of convolution layers run on integer filters, inputs and weights.  Small   *)
(* records carry everything and are evaluated here; "large" records carry the number of        *)
(* elements that differ from an integer evaluation of the same sums, whose agreement with      *)
(* this specification is itself checked on the small records (RefAgrees).                         *)
EXTENDS TraceLib, Disco
Fwd(r) == LET z == Expand(r.P, r.x, r.B, r.C, r.H, r.W, r.K, r.R, r.V)
              y == ConvOut(r.P, z, r.w, r.b, r.B, r.C, r.K, r.R, r.V, r.O, r.G)
              gx == ConvGradX(r.P, r.gy, r.w, r.B, r.C, r.H, r.W, r.K, r.R, r.V, r.O, r.G)
              gw == ConvGradW(z, r.gy, r.B, r.C, r.K, r.R, r.V, r.O, r.G)
              gb == GradBias(r.gy, r.B, r.O, r.R, r.V) IN
  Req("Output", r.y = y) \cup Req("InputGradient", r.gx = <<>> \/ r.gx = gx)
  \cup Req("WeightGradient", r.gw = <<>> \/ r.gw = gw) \cup Req("BiasGradient", r.gb = <<>> \/ r.gb = gb)
  \cup Req("RefAgrees", r.ref = <<>> \/ r.ref = <<y, gx, gw, gb>>)
Bwd(r) == LET zy == Expand(r.P, r.gy, r.B, r.O, r.H, r.W, r.K, r.R, r.V)
              y == TransOut(r.P, r.x, r.w, r.b, r.B, r.C, r.R, r.V, r.K, r.H, r.W, r.O, r.G)
              gx == TransGradX(zy, r.w, r.B, r.C, r.K, r.R, r.V, r.O, r.G)
              gw == TransGradW(zy, r.x, r.B, r.C, r.K, r.R, r.V, r.O, r.G)
              gb == GradBias(r.gy, r.B, r.O, r.H, r.W) IN
  Req("Output", r.y = y) \cup Req("InputGradient", r.gx = <<>> \/ r.gx = gx)
  \cup Req("WeightGradient", r.gw = <<>> \/ r.gw = gw) \cup Req("BiasGradient", r.gb = <<>> \/ r.gb = gb)
  \cup Req("RefAgrees", r.ref = <<>> \/ r.ref = <<y, gx, gw, gb>>)
Large(r) == Req("Output", r.y = 0) \cup Req("InputGradient", r.gx = 0) \cup Req("WeightGradient", r.gw = 0) \cup Req("BiasGradient", r.gb = 0)
Failed(r) == Req("Shape", r.shok) \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok) \cup Req("AllGradients", r.gok)
  \cup (IF r.shok THEN (CASE r.op = "conv" -> Fwd(r) [] r.op = "trans" -> Bwd(r) [] r.op = "large" -> Large(r)) ELSE {})
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
