----------------------------- MODULE RegionOps -----------------------------
(* Region operations of one group of P ranks on tensors of global shape sh along dim.    *)
(* X: function from group position 1..P to the flat local content.                        *)
EXTENDS Tensors
RECURSIVE SumOver(_, _, _)
SumOver(X, P, k) == IF P = 0 THEN 0 ELSE X[P][k] + SumOver(X, P-1, k)
ShLay(sh, dim) == [d \in 1..Len(sh) |-> IF d = dim THEN "p" ELSE "n"]
ShSize(sh, dim, P, q) == LocShape(sh, ShLay(sh, dim), P, 1, q, 1)
(* flat positions (0-based) of the full tensor held by chunk q, in chunk order *)
ChunkPos(sh, dim, P, q) == ShardOf(sh, ShLay(sh, dim), P, 1, q, 1, LAMBDA g : g)
Total(sh, P, X) == [k \in 1..ProdSeq(sh) |-> SumOver(X, P, k)]
SliceOf(v, sh, dim, P, q) == LET cp == ChunkPos(sh, dim, P, q) IN [k \in 1..Len(cp) |-> v[cp[k]+1]]
(* the full tensor put together from the chunks *)
ConcatOf(X, sh, dim, P) ==
  LET st == Strides(sh)
      own == [e \in 0..(sh[dim]-1) |-> Owner(sh[dim], P, e)]
      lst == [q \in 1..P |-> Strides(ShSize(sh, dim, P, q))]
  IN [k \in 1..ProdSeq(sh) |->
       LET ix == Unflat(k-1, sh, st)
           q == own[ix[dim]]
           lx == [ix EXCEPT ![dim] = @ - ChunkStart(sh[dim], P, q)]
       IN X[q][DotSeq(lx, lst[q]) + 1]]
Ops == {"copy", "reduce", "scatter", "gather", "rs", "gcopy"}
InSharded(op) == op \in {"gather", "gcopy"}
OutSharded(op) == op \in {"scatter", "rs"}
Fwd(op, X, sh, dim, P, r) ==
  CASE op = "copy" -> X[r]
    [] op = "reduce" -> Total(sh, P, X)
    [] op = "scatter" -> SliceOf(X[r], sh, dim, P, r)
    [] op \in {"gather", "gcopy"} -> ConcatOf(X, sh, dim, P)
    [] op = "rs" -> SliceOf(Total(sh, P, X), sh, dim, P, r)
Bwd(op, Y, sh, dim, P, r) ==
  CASE op = "copy" -> Total(sh, P, Y)
    [] op = "reduce" -> Y[r]
    [] op \in {"scatter", "rs"} -> ConcatOf(Y, sh, dim, P)
    [] op = "gather" -> SliceOf(Y[r], sh, dim, P, r)
    [] op = "gcopy" -> SliceOf(Total(sh, P, Y), sh, dim, P, r)
InShape(op, sh, dim, P, r) == IF InSharded(op) THEN ShSize(sh, dim, P, r) ELSE sh
OutShape(op, sh, dim, P, r) == IF OutSharded(op) THEN ShSize(sh, dim, P, r) ELSE sh
=============================================================================
