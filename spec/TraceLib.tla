------------------------------ MODULE TraceLib ------------------------------
(* Driver for judging recorded observations of the real code.  Every record of the   *)
(* ndjson file named by the environment variable TRACE is one state; the records are  *)
(* visited along a binary tree so that several TLC workers share the work.  A record   *)
(* is never dropped: its failed clauses are printed and the run continues.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)
Init == i = 1
Next == \E j \in {2*i, 2*i+1} : j <= NRecs /\ i' = j
Verdict(r, failed) == IF failed = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> r.id, c |-> failed]))
(* failed-clause helper: name if the condition does not hold *)
Req(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
