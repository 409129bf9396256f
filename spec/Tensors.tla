------------------------------ MODULE Tensors ------------------------------
(* Row-major tensors as flat sequences, and sharded layouts over a process grid. *)
EXTENDS Integers, Sequences, Partition
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
Strides(sh) == [d \in 1..Len(sh) |-> ProdSeq(SubSeq(sh, d+1, Len(sh)))]
(* 0-based multi-index of flat position k (0-based) *)
Unflat(k, sh, st) == [d \in 1..Len(sh) |-> (k \div st[d]) % sh[d]]
RECURSIVE DotSeq(_,_)
DotSeq(a,b) == IF a = <<>> THEN 0 ELSE a[1]*b[1] + DotSeq(Tail(a), Tail(b))
(* lay[d] \in {"n","p","a"}: not sharded / sharded over the polar / azimuth group;      *)
(* the local box of rank (p,a) (1-based) of an np x na grid                              *)
LocStart(sh, lay, np, na, p, a) ==
  [d \in 1..Len(sh) |-> CASE lay[d] = "p" -> ChunkStart(sh[d], np, p)
                          [] lay[d] = "a" -> ChunkStart(sh[d], na, a)
                          [] OTHER -> 0]
LocShape(sh, lay, np, na, p, a) ==
  [d \in 1..Len(sh) |-> CASE lay[d] = "p" -> ChunkSize(sh[d], np, p)
                          [] lay[d] = "a" -> ChunkSize(sh[d], na, a)
                          [] OTHER -> sh[d]]
(* flat content of the shard when the global element with flat index g holds Val(g) *)
ShardOf(sh, lay, np, na, p, a, Val(_)) ==
  LET ls == LocShape(sh, lay, np, na, p, a)
      lo == LocStart(sh, lay, np, na, p, a)
      st == Strides(ls)
      gs == Strides(sh)
      n  == ProdSeq(ls)
      base == DotSeq(lo, gs)
  IN [k \in 1..n |-> Val(base + DotSeq(Unflat(k-1, ls, st), gs))]
=============================================================================
