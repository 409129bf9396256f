------------------------------- MODULE T_P22 -------------------------------
EXTENDS TraceLib
C == INSTANCE Cache WITH Args <- 1..2, Vals <- 1..3, Cap <- 20, Copy <- TRUE, ByValue <- TRUE
(* obs[k][j][v]: distance (in tolerances) of handle j after action k from a fresh computation with value v *)
OkAt(r, k) == LET e == C!ExpAfter(SubSeq(r.h, 1, k)) IN Len(r.obs[k]) = Len(e) /\ \A j \in 1..Len(e) : e[j] > 0 => r.obs[k][j][e[j]] <= 1
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE Req("EqualsFreshComputation", \A k \in 1..Len(r.h) : OkAt(r, k))
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
