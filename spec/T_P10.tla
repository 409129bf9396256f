------------------------------- MODULE T_P10 -------------------------------
(* Judges recorded histories: after every operation the observed registration state must be *)
(* the machine's, seen from every rank; every use of an operator must agree with the serial   *)
(* operator on the shard the registration assigns to the rank.                                 *)
EXTENDS TraceLib, LifecycleOps, Partition
Tol(dt) == IF dt = "f64" THEN 1000000 ELSE 4000
FailedObs(s, o) ==
  Req("Initialised", o.ini = s.ini) \cup Req("PolarHandle", o.pol = s.pol) \cup Req("AzimuthHandle", o.az = s.az)
  \cup Req("IsDistributedPolar", o.isp = (s.pol # "-")) \cup Req("IsDistributedAzimuth", o.isa = (s.az # "-"))
  \cup Req("Debug", o.dbg = Debug(s)) \cup Req("DestroyedOnce", o.dead = s.dead)
  \cup UNION {LET q == o.ranks[w+1] IN
        Req("PolarSize", q.ps = SizeOf(s.pol)) \cup Req("AzimuthSize", q.as = SizeOf(s.az))
        \cup Req("PolarRank", q.pr = RankOf(s.pol, w)) \cup Req("AzimuthRank", q.ar = RankOf(s.az, w)) : w \in 0..NW-1}
LocShape(gsh, lay, s, w) == [d \in 1..Len(gsh) |->
   CASE lay[d] = "p" -> ChunkSize(gsh[d], SizeOf(s.pol), RankOf(s.pol, w) + 1)
     [] lay[d] = "a" -> ChunkSize(gsh[d], SizeOf(s.az), RankOf(s.az, w) + 1)
     [] OTHER -> gsh[d]]
FailedUse(s, u) ==
  (IF u.bad THEN Req("WrongSizesRejectedInDebug", (Debug(s) /\ u.expect) => u.rejected)
   ELSE UNION {LET it == u.items[x] IN UNION {
           Req("Shard." \o it.n, it.obs[w+1].sh = LocShape(it.gsh, it.lay, s, w)) \cup
           Req("SerialEqual." \o it.n, it.obs[w+1].res >= 0 /\ it.obs[w+1].res <= Tol(u.dt)) : w \in 0..NW-1} : x \in 1..Len(u.items)}
        \cup Req("NoCommFault", u.faults = <<>>))
Failed(r) == UNION {LET s == StateAfter(r.h, k) IN FailedObs(s, r.obs[k]) \cup (IF r.h[k].k = "use" THEN FailedUse(s, r.obs[k].use) ELSE {}) : k \in 1..Len(r.h)}
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
