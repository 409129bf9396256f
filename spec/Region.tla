------------------------------- MODULE Region -------------------------------
(* Two-step machine: apply a region operation, then its gradient; the pair must be       *)
(* adjoint for the pairing appropriate to replicated / partial / sharded operands.       *)
EXTENDS RegionOps, TLC, Json
CONSTANTS Groups, Sizes
VARIABLES op, P, sh, dim, pc, out, gin
vars == <<op, P, sh, dim, pc, out, gin>>
Replicated(o, side) == IF side = "in" THEN o \in {"copy", "scatter"} ELSE o \in {"reduce", "gather"}
XV(rep, r, k) == LET q == IF rep THEN 0 ELSE r IN k * (2*q+1) + q*q
YV(rep, r, k) == LET q == IF rep THEN 0 ELSE r IN (k+1) * (3*q+1) - q
X == [r \in 1..P |-> [k \in 1..ProdSeq(InShape(op, sh, dim, P, r)) |-> XV(Replicated(op, "in"), r, k)]]
Y == [r \in 1..P |-> [k \in 1..ProdSeq(OutShape(op, sh, dim, P, r)) |-> YV(Replicated(op, "out"), r, k)]]
Init == /\ op \in Ops /\ P \in Groups /\ sh \in [1..2 -> Sizes] /\ dim \in 1..2 /\ sh[dim] >= P
        /\ pc = "start" /\ out = <<>> /\ gin = <<>>
Forward == pc = "start" /\ pc' = "fwd" /\ out' = [r \in 1..P |-> Fwd(op, X, sh, dim, P, r)] /\ UNCHANGED <<op, P, sh, dim, gin>>
Backward == pc = "fwd" /\ pc' = "bwd" /\ gin' = [r \in 1..P |-> Bwd(op, Y, sh, dim, P, r)] /\ UNCHANGED <<op, P, sh, dim, out>>
Next == Forward \/ Backward
RECURSIVE Pair(_, _, _)
Pair(A, B, r) == IF r = 0 THEN 0 ELSE DotSeq(A[r], B[r]) + Pair(A, B, r-1)
PairIn == IF Replicated(op, "in") THEN DotSeq(X[1], gin[1]) ELSE Pair(X, gin, P)
PairOut == IF Replicated(op, "out") THEN DotSeq(out[1], Y[1]) ELSE Pair(out, Y, P)
Adjoint == pc = "bwd" => PairIn = PairOut
Shapes == /\ (pc # "start" => \A r \in 1..P : Len(out[r]) = ProdSeq(OutShape(op, sh, dim, P, r)))
          /\ (pc = "bwd" => \A r \in 1..P : Len(gin[r]) = ProdSeq(InShape(op, sh, dim, P, r)))
Scn == pc = "bwd" => PrintT("SCN " \o ToJson([op |-> op, P |-> P, sh |-> sh, dim |-> dim]))
=============================================================================
