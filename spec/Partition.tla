----------------------------- MODULE Partition -----------------------------
(* Balanced ownership of a dimension of N elements by P ranks (ranks 1..P, elements 0..N-1). *)
EXTENDS Integers, Sequences
MinI(a,b) == IF a < b THEN a ELSE b
MaxI(a,b) == IF a > b THEN a ELSE b
Splittable(N,P) == N >= P
ChunkSize(N,P,r) == (N \div P) + (IF r <= N % P THEN 1 ELSE 0)
ChunkStart(N,P,r) == (r-1)*(N \div P) + MinI(r-1, N % P)
SplitSizes(N,P) == [r \in 1..P |-> ChunkSize(N,P,r)]
Chunk(N,P,r) == ChunkStart(N,P,r) .. (ChunkStart(N,P,r) + ChunkSize(N,P,r) - 1)
Owner(N,P,e) == CHOOSE r \in 1..P : e \in Chunk(N,P,r)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
(* what the partition must guarantee, stated independently of the closed form *)
PartitionOK(N,P) ==
  /\ \A e \in 0..(N-1) : \E r \in 1..P : e \in Chunk(N,P,r) /\ \A q \in 1..P : e \in Chunk(N,P,q) => q = r
  /\ \A r \in 1..P : ChunkSize(N,P,r) >= 1
  /\ \A r,q \in 1..P : r < q => /\ ChunkSize(N,P,r) >= ChunkSize(N,P,q)
                                /\ ChunkSize(N,P,r) - ChunkSize(N,P,q) <= 1
                                /\ \A a \in Chunk(N,P,r), b \in Chunk(N,P,q) : a < b
  /\ SumSeq(SplitSizes(N,P)) = N
=============================================================================
