------------------------------- MODULE T_P05 -------------------------------
(* Judges the communication programs the ranks of the real code executed.                   *)
(* Events: C blocking collective, A asynchronous collective, S/R posted send/receive,        *)
(*   W wait for the posted event number "of" of the same rank.                                *)
(* Static part: the n-th collective of a group is the same call with compatible sizes and     *)
(*   types on all members; the n-th send of a channel meets the n-th receive; every posted     *)
(*   operation is waited for exactly once by its poster.                                       *)
(* Dynamic part: all interleavings.  A rank may take its next event when it is enabled in the  *)
(*   weakest semantics (a blocking collective when all members have arrived at it, a wait when  *)
(*   all mates have posted).  No reachable state may be stuck before every program has ended.   *)
(* Record programs whose state space is small are explored completely; for the others the       *)
(* greedy run decides, because enabledness is monotone (checked as Monotone on the small ones). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, pos, walk
vars == <<i, pos, walk>>
Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)
Req(name, cond) == IF cond THEN {} ELSE {name}
Verdict(r, failed) == IF failed = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([id |-> r.id, c |-> failed]))
Coll(e) == e.k \in {"C", "A"}
Mem(e, q) == \E j \in 1..Len(e.m) : e.m[j] = q
IdxOf(e, q) == CHOOSE j \in 1..Len(e.m) : e.m[j] = q
(* position in q's program of the n-th collective on the group of e; 0 if there is none *)
MateColl(r, e, q) == LET P == r.prog[q] 
                         S == {x \in 1..Len(P) : Coll(P[x]) /\ P[x].g = e.g /\ P[x].m = e.m /\ P[x].n = e.n}
                     IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
MateP2P(r, me, e) == LET P == r.prog[e.peer]
                         S == {x \in 1..Len(P) : P[x].k = (IF e.k = "S" THEN "R" ELSE "S") /\ P[x].g = e.g /\ P[x].tag = e.tag /\ P[x].peer = me /\ P[x].n = e.n}
                     IN IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
(* size rules, e on rank p against f on member q *)
Compatible(e, p, f, q) ==
  /\ e.op = f.op /\ e.dt = f.dt /\ e.red = f.red /\ Len(e.dt) <= 1
  /\ LET ip == IdxOf(e, p) iq == IdxOf(e, q) n == Len(e.m) IN
     CASE e.op = "all_gather" -> Len(e.outs) = n /\ e.outs[iq] = f.ins[1]
       [] e.op \in {"all_to_all", "all_to_all_single"} -> Len(e.outs) = n /\ Len(f.ins) = n /\ e.outs[iq] = f.ins[ip]
       [] e.op = "all_reduce" -> e.ins = f.ins
       [] e.op = "reduce_scatter" -> Len(f.ins) = n /\ e.outs[1] = f.ins[ip]
       [] e.op = "reduce_scatter_tensor" -> e.outs[1]*n = f.ins[1]
       [] e.op = "all_gather_into_tensor" -> e.outs[1] = n*f.ins[1] /\ e.ins = f.ins
       [] e.op = "broadcast" -> e.ins = f.ins
       [] OTHER -> TRUE
StaticEvent(r, p, x) ==
  LET e == r.prog[p][x] IN
  CASE Coll(e) -> Req("Member", Mem(e, p)) \cup UNION {
         LET y == MateColl(r, e, e.m[j]) IN
           Req("CollectiveMatched", y > 0) \cup (IF y > 0 THEN Req("CollectiveCompatible", Compatible(e, p, r.prog[e.m[j]][y], e.m[j])) ELSE {}) : j \in 1..Len(e.m)}
    [] e.k \in {"S", "R"} -> LET y == MateP2P(r, p, e) IN
         Req("MessageMatched", y > 0) \cup (IF y > 0 THEN Req("MessageCompatible", r.prog[e.peer][y].ins = e.ins /\ r.prog[e.peer][y].dt = e.dt) ELSE {})
    [] OTHER -> Req("WaitsOwn", e.own = 1 /\ e.of < x /\ r.prog[p][e.of].k \in {"A", "S", "R"})
Waited(r, p) == LET P == r.prog[p]
                    Posted == {x \in 1..Len(P) : P[x].k \in {"A", "S", "R"}}
                    W == {x \in 1..Len(P) : P[x].k = "W"}
                IN {P[x].of : x \in W} = Posted /\ Cardinality(W) = Cardinality(Posted)
Static(r) == UNION {UNION {StaticEvent(r, p, x) : x \in 1..Len(r.prog[p])} \cup Req("EveryPostIsWaitedOnce", Waited(r, p)) : p \in 1..r.n}
(* ---- dynamics: pos[p] = number of events rank p has completed ---- *)
Posted(r, ps, q, y) == y > 0 /\ (ps[q] >= y)
Arrived(r, ps, q, y) == y > 0 /\ (ps[q] >= y - 1)
Enabled(r, ps, p) ==
  /\ ps[p] < Len(r.prog[p])
  /\ LET e == r.prog[p][ps[p] + 1] IN
     CASE e.k = "C" -> \A j \in 1..Len(e.m) : e.m[j] = p \/ LET y == MateColl(r, e, e.m[j]) IN IF y > 0 /\ r.prog[e.m[j]][y].k = "A" THEN Posted(r, ps, e.m[j], y) ELSE Arrived(r, ps, e.m[j], y)
       [] e.k = "W" -> LET o == r.prog[p][e.of] IN
            IF Coll(o) THEN \A j \in 1..Len(o.m) : o.m[j] = p \/ LET y == MateColl(r, o, o.m[j]) IN IF y > 0 /\ r.prog[o.m[j]][y].k = "C" THEN Arrived(r, ps, o.m[j], y) ELSE Posted(r, ps, o.m[j], y)
            ELSE Posted(r, ps, o.peer, MateP2P(r, p, o))
       [] OTHER -> TRUE
Finished(r, ps) == \A p \in 1..r.n : ps[p] = Len(r.prog[p])
Stuck(r, ps) == ~Finished(r, ps) /\ \A p \in 1..r.n : ~Enabled(r, ps, p)
RECURSIVE Greedy(_, _)
Greedy(r, ps) == LET En == {p \in 1..r.n : Enabled(r, ps, p)} IN
                 IF En = {} THEN Finished(r, ps) ELSE Greedy(r, [p \in 1..r.n |-> IF p \in En THEN ps[p] + 1 ELSE ps[p]])
Judge(r) == Req("NoCommFault", r.faults = <<>>) \cup Req("AllRanksTerminate", r.done)
  \cup Req("SameResultsUnderEverySchedule", r.same) \cup Req("SameProgramsUnderEverySchedule", r.progs)
  \cup (IF r.done /\ r.faults = <<>> THEN Static(r) \cup Req("NoDeadlock", Greedy(r, [p \in 1..r.n |-> 0])) ELSE {})
Init == i = 1 /\ pos = <<>> /\ walk = FALSE
Zero(r) == [p \in 1..r.n |-> 0]
NextRec == ~walk /\ \E j \in {2*i, 2*i+1} : j <= NRecs /\ i' = j /\ pos' = <<>> /\ walk' = FALSE
Start == ~walk /\ Recs[i].small /\ Recs[i].done /\ walk' = TRUE /\ pos' = Zero(Recs[i]) /\ i' = i
Adv(p) == walk /\ Enabled(Recs[i], pos, p) /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ UNCHANGED <<i, walk>>
Next == NextRec \/ Start \/ \E p \in 1..(IF walk THEN Recs[i].n ELSE 0) : Adv(p)
Inv == IF walk THEN (IF Stuck(Recs[i], pos) THEN Verdict(Recs[i], {"NoDeadlock"}) ELSE TRUE) ELSE Verdict(Recs[i], Judge(Recs[i]))
(* an enabled step stays enabled when another rank moves: checked on every explored state *)
Monotone == walk => \A p, q \in 1..Recs[i].n : (p # q /\ Enabled(Recs[i], pos, p) /\ Enabled(Recs[i], pos, q)) => Enabled(Recs[i], [pos EXCEPT ![q] = @ + 1], p)
=============================================================================
