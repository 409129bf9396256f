------------------------------- MODULE T_P27 -------------------------------
(* obs[k]: <<>> or, for a call, distances (in tolerances) of value and gradients from the plain layer with parameter version 1 and 2;    *)
(* meta[k]: shapes and types predicted without data equal those of the call; ops: every operator of the library met on the way predicts   *)
(* the shape, type and strides it returns and returns no alias of an argument; keep: inputs, parameters and buffers are unchanged          *)
EXTENDS TraceLib
G == INSTANCE Graph
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  LET E == G!Outs(r.k, r.h) IN
  Req("GraphEqualsEager", Len(r.obs) = Len(E) /\ \A k \in 1..Len(E) : E[k] = <<>> \/ (Len(r.obs[k]) = 2 /\ r.obs[k][E[k][1]] <= 1))
  \cup Req("PredictedShapesAndTypes", \A k \in 1..Len(r.meta) : r.meta[k])
  \cup Req("OperatorsPredictTheirResults", r.ops = <<>>)
  \cup Req("NothingModified", \A k \in 1..Len(r.keep) : r.keep[k])
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
