---------------------------- MODULE PartitionMC ----------------------------
(* State machine that deals elements out to ranks one dimension at a time; the ownership *)
(* it ends in must satisfy PartitionOK.  Also the source of split scenarios.              *)
EXTENDS Partition, TLC, Json, FiniteSets
CONSTANTS MaxN, MaxP
VARIABLES n, p, r, sizes     \* r: next rank to be served
Init == n \in 1..MaxN /\ p \in 1..MaxP /\ Splittable(n, p) /\ r = 1 /\ sizes = <<>>
(* serve rank r: an equal share of what is left, rounded up *)
Left == n - SumSeq(sizes)
Serve == /\ r <= p
         /\ sizes' = Append(sizes, (Left + (p - r + 1) - 1) \div (p - r + 1))
         /\ r' = r + 1
         /\ UNCHANGED <<n, p>>
Next == Serve
(* the sequential dealing and the closed form agree, and both are a partition *)
Agree == r = p + 1 => sizes = SplitSizes(n, p)
Good == r = 1 => PartitionOK(n, p)
Prefix == \A q \in 1..Len(sizes) : ChunkStart(n, p, q) = SumSeq(SubSeq(sizes, 1, q-1))
=============================================================================
