-------------------------------- MODULE T_P09 -------------------------------
(* Distributed attention runs: shard-wise agreement with the serial layer (T_Dist), and the *)
(* ring observations against Ring: every rank processes every chunk of its latitude ring    *)
(* exactly once per pass, under the chunk's true global longitude offset and width.         *)
EXTENDS TraceLib, Tensors
Dist == INSTANCE T_Dist
Idx(r, rk, op) == {k \in 1..Len(r.ring) : r.ring[k].r = rk /\ r.ring[k].op = op}
RingOf(r, rk, op) ==
  LET S == Idx(r, rk, op) IN
    Req("RingEveryChunkOnce." \o op, /\ Cardinality(S) = r.na /\ {r.ring[k].held : k \in S} = 1..r.na)
    \cup Req("RingTrueOffset." \o op, \A k \in S : r.ring[k].held >= 1 => /\ r.ring[k].lo = ChunkStart(r.nlon, r.na, r.ring[k].held)
                                                                           /\ r.ring[k].wd = ChunkSize(r.nlon, r.na, r.ring[k].held))
Failed(r) == Dist!Failed(r)
  \cup UNION {UNION {RingOf(r, rk, op) : op \in {r.ring[k].op : k \in 1..Len(r.ring)}} : rk \in 0..(r.np*r.na - 1)}
  \cup Req("RingRan", Len(r.ring) > 0)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
