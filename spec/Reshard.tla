------------------------------ MODULE Reshard ------------------------------
(* Re-sharding by all-to-all transposes on a polar x azimuth process grid.               *)
(* State: the process grid, the global shape, which group shards which dimension, and    *)
(* the local content of every rank as produced by message passing (split, exchange,      *)
(* concatenate).  The invariants say that this content is at all times exactly the box   *)
(* of the global tensor that the balanced partition assigns to the rank.                 *)
EXTENDS Tensors, TLC, Json, FiniteSets
CONSTANTS Grids, Sizes, MaxSteps, Export, Track   \* Track: model the message passing (loc); otherwise only generate behaviours
VARIABLES np, na, sh, lay, loc, hist, lay0

vars == <<np, na, sh, lay, loc, hist, lay0>>
Dims == 1..Len(sh)
Box(s) == {ix \in [1..3 -> 0..MaxI(s[1], MaxI(s[2], s[3]))] : \A d \in 1..3 : ix[d] < s[d]}
Global(s) == LET g == Strides(s) IN [ix \in Box(s) |-> DotSeq(ix, g)]
Ranks == (1..np) \X (1..na)
Layouts == {l \in [1..3 -> {"n","p","a"}] : Cardinality({d \in 1..3 : l[d] = "p"}) = 1 /\ Cardinality({d \in 1..3 : l[d] = "a"}) = 1}
Fits(s, l, P, A) == \A d \in 1..3 : (l[d] = "p" => s[d] >= P) /\ (l[d] = "a" => s[d] >= A)

Cut(T, lsh, d, start, size) ==    \* the chunk [start, start+size) of T along d
  LET ns == [lsh EXCEPT ![d] = size] IN [ix \in Box(ns) |-> T[[ix EXCEPT ![d] = @ + start]]]
(* concatenation along d of the group's pieces, piece q having size sz[q] along d *)
Join(piece, nsh, d, sz) ==
  LET starts == [q \in DOMAIN sz |-> SumSeq(SubSeq(sz, 1, q-1))]
      own(e) == CHOOSE q \in DOMAIN sz : e >= starts[q] /\ e < starts[q] + sz[q]
  IN [ix \in Box(nsh) |-> LET q == own(ix[d]) IN piece[q][[ix EXCEPT ![d] = @ - starts[q]]]]

Member(g, r, q) == IF g = "p" THEN <<q, r[2]>> ELSE <<r[1], q>>
Pos(g, r) == IF g = "p" THEN r[1] ELSE r[2]
GSize(g) == IF g = "p" THEN np ELSE na
LShape(l, r) == LocShape(sh, l, np, na, r[1], r[2])

(* every rank r splits its block along d0, sends chunk q to member q, and joins along d1 *)
Transpose(g, d0, d1) ==
  /\ Len(hist) < MaxSteps
  /\ lay[d1] = g /\ lay[d0] = "n" /\ d0 # d1
  /\ sh[d0] >= GSize(g)
  /\ LET P == GSize(g)
         l2 == [lay EXCEPT ![d1] = "n", ![d0] = g]
         chunk(r, q) == Cut(loc[r], LShape(lay, r), d0, ChunkStart(sh[d0], P, q), ChunkSize(sh[d0], P, q))
     IN /\ lay' = l2
        /\ loc' = IF ~Track THEN loc ELSE [r \in Ranks |-> Join([q \in 1..P |-> chunk(Member(g, r, q), Pos(g, r))], LShape(l2, r), d1, SplitSizes(sh[d1], P))]
  /\ hist' = Append(hist, [g |-> g, d0 |-> d0, d1 |-> d1])
  /\ UNCHANGED <<np, na, sh, lay0>>

Init ==
  /\ \E gr \in Grids : np = gr[1] /\ na = gr[2]
  /\ sh \in [1..3 -> Sizes]
  /\ lay \in Layouts /\ Fits(sh, lay, np, na)
  /\ lay0 = lay
  /\ hist = <<>>
  /\ loc = IF ~Track THEN <<>> ELSE [r \in Ranks |-> LET lo == LocStart(sh, lay, np, na, r[1], r[2])
                                                        g == Strides(sh) IN
              [ix \in Box(LocShape(sh, lay, np, na, r[1], r[2])) |-> DotSeq([d \in 1..3 |-> ix[d] + lo[d]], g)]]
Next == \E g \in {"p","a"}, d0, d1 \in 1..3 : Transpose(g, d0, d1)
Spec == Init /\ [][Next]_vars

(* every element is on the rank and position the partition assigns *)
Placed == \A r \in Ranks : LET lo == LocStart(sh, lay, np, na, r[1], r[2])
                                g == Strides(sh) IN
            /\ DOMAIN loc[r] = Box(LShape(lay, r))
            /\ \A ix \in DOMAIN loc[r] : loc[r][ix] = DotSeq([d \in 1..3 |-> ix[d] + lo[d]], g)
(* nothing lost, nothing duplicated *)
ExactlyOnce == \A e \in 0..(ProdSeq(sh)-1) :
   Cardinality({x \in UNION {{<<r, ix>> : ix \in DOMAIN loc[r]} : r \in Ranks} : loc[x[1]][x[2]] = e}) = 1
Scn == (Export /\ Len(hist) > 0) => PrintT("SCN " \o ToJson([np |-> np, na |-> na, sh |-> sh, lay |-> lay0, ops |-> hist]))
=============================================================================
