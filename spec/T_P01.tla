------------------------------- MODULE T_P01 -------------------------------
EXTENDS TraceLib, Tensors
(* kind "sizes": r.n elements, r.e = list of [p, refused, sizes] *)
SizesOK(n, p, s) ==
  /\ Len(s) = p
  /\ SumSeq(s) = n
  /\ \A q \in 1..p : s[q] >= 1 /\ s[q] <= s[1] /\ s[1] - s[q] <= 1
  /\ \A q \in 1..(p-1) : s[q] >= s[q+1]
FailedSizes(r) ==
  UNION {LET e == r.e[k] IN
     IF r.n < e.p THEN Req("RefusedWhenTooFew", e.refused)
     ELSE Req("NotRefused", ~e.refused) \cup (IF e.refused THEN {} ELSE Req("Balanced", SizesOK(r.n, e.p, e.s))) : k \in 1..Len(r.e)}
(* kind "split": tensor of shape r.sh split along r.dim (1-based) into r.p chunks *)
FailedSplit(r) ==
  IF r.sh[r.dim] < r.p THEN Req("RefusedWhenTooFew", r.refused)
  ELSE Req("NotRefused", ~r.refused) \cup (IF r.refused THEN {} ELSE
    LET lay == [d \in 1..Len(r.sh) |-> IF d = r.dim THEN "p" ELSE "n"] IN
       Req("ChunkCount", Len(r.c) = r.p) \cup
       (IF Len(r.c) # r.p THEN {} ELSE
        UNION {Req("ChunkShape", r.c[q].sh = LocShape(r.sh, lay, r.p, 1, q, 1)) \cup
               Req("ChunkContent", r.c[q].v = ShardOf(r.sh, lay, r.p, 1, q, 1, LAMBDA g : g + 1)) : q \in 1..r.p}))
(* kind "pack": leading dims r.lead, trailing dims r.trail, padded to at least r.min rows *)
FailedPack(r) ==
  LET L == ProdSeq(r.lead)
      T == ProdSeq(r.trail)
      M == MaxI(L, r.min)
      T2 == ProdSeq(r.trail2)
  IN Req("PackedShape", r.packed.sh = <<M>> \o r.trail)
     \cup Req("PackedContent", r.packed.v = [k \in 1..(M*T) |-> IF k <= L*T THEN k ELSE 0])
     \cup Req("LeadRemembered", r.leadshape = r.lead /\ r.leadsize = L)
     \cup Req("RoundTrip", r.back.sh = r.lead \o r.trail /\ r.back.v = [k \in 1..(L*T) |-> k])
     \cup Req("UnpackOther", r.back2.sh = r.lead \o r.trail2 /\ r.back2.v = [k \in 1..(L*T2) |-> k])
     \cup Req("GradRoundTrip", r.grad.sh = r.lead \o r.trail /\ r.grad.v = [k \in 1..(L*T) |-> 2*k+1])
     \cup Req("DtypeKept", r.dtypeok) \cup Req("InputUnchanged", r.inputok)
Failed(r) == CASE r.kind = "sizes" -> FailedSizes(r)
               [] r.kind = "split" -> FailedSplit(r)
               [] r.kind = "pack" -> FailedPack(r)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
