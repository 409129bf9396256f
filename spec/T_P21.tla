------------------------------- MODULE T_P21 -------------------------------
EXTENDS TraceLib, Grf
(* "map": coefficients of fields from integer noise (units 10^-d) *)
Map(r) == LET sg == IF r.sigma = 0 THEN DefSigma(r.half, r.tau) ELSE r.sigma IN
  Req("Coefficients", \A n \in 1..Len(r.xi) : \A c \in 1..2 : Abs(r.y[n][c] - CoefOf(sg, r.half, r.tau, r.R, r.lm[n][1], r.lm[n][2], IF c = 2 /\ (r.lm[n][2] = 0 \/ 2*r.lm[n][2] = r.nlon) THEN 0 ELSE r.xi[n][c], r.d)) <= 2)
  \cup Req("NothingOutside", r.out >= 0 /\ r.out <= 100)
(* "hist": out[k] identifies the field returned by action k (0: none) *)
Hist(r) == LET O == Outs(r.h) IN
  Req("SameNoiseSameField", \A a, b \in 1..Len(r.h) : (O[a] # <<>> /\ O[a] = O[b]) => r.out[a] = r.out[b])
  \cup Req("OtherNoiseOtherField", \A a, b \in 1..Len(r.h) : (O[a] # <<>> /\ O[b] # <<>> /\ O[a] # O[b]) => r.out[a] # r.out[b])
  \cup Req("GivenAsAlone", \A a \in 1..Len(r.h) : r.h[a][1] = "given" => r.out[a] = r.ref[r.h[a][2]])
(* "stat": empirical moments of the noise recovered from many fields, in 10^-3 *)
Stat(r) == Req("UnitVariance", \A k \in 1..Len(r.var) : Abs(r.var[k] - 1000) <= r.tolv) \cup Req("ZeroMeanNoise", \A k \in 1..Len(r.mean) : Abs(r.mean[k]) <= r.tolm)
  \cup Req("Uncorrelated", \A k \in 1..Len(r.cor) : Abs(r.cor[k]) <= r.tolm)
Res(r) == Req("Value", r.ry >= 0 /\ r.ry <= 100) \cup Req("FieldMeanZero", r.mean >= 0 /\ r.mean <= 100) \cup Req("BatchIndependent", r.batch >= 0 /\ r.batch <= 100)
Failed(r) == Req("Shape", r.shok) \cup Req("Dtype", r.dtok) \cup Req("InputUnchanged", r.inok) \cup
  (IF ~r.shok THEN {} ELSE CASE r.op = "map" -> Map(r) [] r.op = "hist" -> Hist(r) [] r.op = "stat" -> Stat(r) [] r.op = "res" -> Res(r) [] OTHER -> {"UnknownOp"})
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
