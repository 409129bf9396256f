------------------------------- MODULE T_P24 -------------------------------
(* obs[k]: <<>> or distances (in tolerances) of the outputs/gradients of action k from the fresh module with parameter version 1 and 2 (wide: then the same two after a precision excursion); *)
(* clean[k]: inputs, cotangents, parameters and buffers of every handle are bitwise as before; keep: outputs returned earlier are unchanged at the end *)
EXTENDS TraceLib
P == INSTANCE Purity
OkAt(o, e) == IF e = <<>> THEN TRUE ELSE IF e[1] = "wide" THEN (Len(o) = 4 /\ o[e[2] + 2 * e[4]] <= 1) ELSE (Len(o) = 2 /\ o[e[2]] <= 1)
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  LET E == P!Outs(r.h) IN
  Req("DependsOnlyOnParametersAndInput", Len(r.obs) = Len(E) /\ \A k \in 1..Len(E) : OkAt(r.obs[k], E[k]))
  \cup Req("NothingModified", \A k \in 1..Len(r.clean) : r.clean[k])
  \cup Req("OutputsKept", r.keep)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
