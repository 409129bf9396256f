----------------------------- MODULE DistDisco -----------------------------
(* Distributed discrete-continuous convolution: which rank accumulates which product.      *)
(* A product is <<output latitude, input latitude, output channel, input channel>> (the    *)
(* longitude shift and the kernel index are local to a rank).  The machine assigns channel *)
(* shards by an azimuth re-sharding, restricts the filter to the input latitudes a polar    *)
(* rank owns, accumulates, and reduces.  Every product of the serial sum must be             *)
(* accumulated exactly once per azimuth slice, also when a channel group is cut by a shard  *)
(* boundary (fused variant pads the shard to whole groups).                                 *)
EXTENDS Partition, TLC, Json, FiniteSets
CONSTANTS PSet, ASet, Lats, GroupsSet, GsSet, OpgSet
VARIABLES path, np, na, hin, hout, groups, gs, opg, pc, acc
vars == <<path, np, na, hin, hout, groups, gs, opg, pc, acc>>
Cin == groups*gs
Cout == groups*opg
GroupOfIn(c) == c \div gs
GroupOfOut(o) == o \div opg
Serial == {<<ho, hi, o, c>> \in (0..hout-1) \X (0..hin-1) \X (0..Cout-1) \X (0..Cin-1) : GroupOfIn(c) = GroupOfOut(o)}
Init == /\ path \in {"a2a", "fused", "transpose"} /\ np \in PSet /\ na \in ASet /\ hin \in Lats /\ hout \in Lats
        /\ groups \in GroupsSet /\ gs \in GsSet /\ opg \in OpgSet
        /\ hin >= np /\ hout >= np /\ (path # "transpose" => Cin >= na) /\ (path = "transpose" => Cout >= na)
        /\ pc = "start" /\ acc = <<>>
Rk == (1..np) \X (1..na)
(* products accumulated by rank <<p,a>> *)
ChanShard(a) == Chunk(Cin, na, a)
OutShard(a) == Chunk(Cout, na, a)
A2A(p, a) ==      \* contraction on own channels and own input rows; mixing after the channels are whole again
  {t \in Serial : t[2] \in Chunk(hin, np, p) /\ t[4] \in ChanShard(a)}
Fused(p, a) ==    \* mixing inside the shard, which is padded with zero channels to whole groups
  LET glo == ChunkStart(Cin, na, a) \div gs
      ghi == (ChunkStart(Cin, na, a) + ChunkSize(Cin, na, a) + gs - 1) \div gs
      padded == {c \in 0..Cin-1 : GroupOfIn(c) >= glo /\ GroupOfIn(c) < ghi}
  IN {t \in Serial : t[2] \in Chunk(hin, np, p) /\ t[4] \in padded /\ t[4] \in ChanShard(a)}   \* padding is zero
Transp(p, a) ==   \* mixing first on whole channels, then output channels are sharded, input rows gathered, filter restricted to own output rows
  {t \in Serial : t[3] \in OutShard(a) /\ t[1] \in Chunk(hout, np, p)}
Contract == pc = "start" /\ pc' = "reduce" /\ UNCHANGED <<path, np, na, hin, hout, groups, gs, opg>>
   /\ acc' = [r \in Rk |-> CASE path = "a2a" -> A2A(r[1], r[2]) [] path = "fused" -> Fused(r[1], r[2]) [] OTHER -> Transp(r[1], r[2])]
Next == Contract
ExactlyOnce == pc = "reduce" =>
   /\ UNION {acc[r] : r \in Rk} = Serial
   /\ \A r, q \in Rk : r # q => acc[r] \cap acc[q] = {}
Scn == pc = "reduce" => PrintT("SCN " \o ToJson([path |-> path, np |-> np, na |-> na, hin |-> hin, hout |-> hout, groups |-> groups, gs |-> gs, opg |-> opg]))
=============================================================================
