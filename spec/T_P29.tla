------------------------------- MODULE T_P29 -------------------------------
(* one record is one history on one layer (or one rank): h the steps; obs[n] of a call: type of the answer, error e of the answer and g of   *)
(* the gradients against float32 execution on the same numbers (units of 2^-24 of the largest magnitude), q the error in the mean, gt gradients have the types of    *)
(* their leaves, fine: float64 answers are not float32 numbers and move with changes of 2^-30 of the field, same: immune layers answer bit for bit what they answer outside; after   *)
(* every step ac names the open region found                                                                                               *)
EXTENDS TraceLib
M == INSTANCE Precision
(* roundings on the way from the fields to the answer *)
K(r) == (CASE r.c.fam \in M!Conv -> 24 [] r.c.fam \in M!Att -> 60 [] r.c.fam = "quad" -> 8 [] r.c.fam = "res" -> 12 [] r.c.fam = "spc" -> 8 [] OTHER -> 60)
(* the same in the mean, where a 16-bit type rounds: a coarser type than the announced one shows in it *)
Q(r) == CASE r.c.fam = "natt" -> 4 [] r.c.fam = "att" -> 12 [] OTHER -> 2
Fine == M!Conv \cup M!Trans \cup {"res", "quad", "att"}
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  LET St(n) == M!Stack(SubSeq(r.h, 1, n))
      Calls == {n \in 1..Len(r.h) : r.h[n][1] = "call"}
      A(n) == M!Answer(r.c, St(n-1), r.h[n][2])
  IN Req("RegionKept", \A n \in 1..Len(r.h) : r.ac[n] = M!Eff(St(n)))
     \cup Req("Answers", \A n \in Calls : r.obs[n].t # "refused")
     \cup Req("AnswerType", \A n \in Calls : r.obs[n].t \in A(n)[3] \cup {"refused"})
     \cup Req("LosesOnlyRounding", \A n \in Calls : r.obs[n].t = "refused" \/ r.obs[n].e <= K(r) * A(n)[2])
     \cup Req("LosesOnlyThisType", \A n \in Calls : (r.obs[n].t # "refused" /\ A(n)[2] >= M!Eps("f16")) => r.obs[n].q <= Q(r) * A(n)[2])
     \cup Req("GradientTypes", \A n \in Calls : r.obs[n].gt)
     \cup Req("GradientRounding", \A n \in Calls : r.obs[n].t = "refused" \/ r.obs[n].g <= 2 * K(r) * A(n)[2])
     \cup Req("FullPrecision", \A n \in Calls : (A(n)[1] = "f64" /\ r.c.fam \in Fine) => r.obs[n].fine)
     \cup Req("Untouched", \A n \in Calls : r.c.fam \in M!Immune => r.obs[n].same)
     \cup Req("NothingModified", r.keep)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
