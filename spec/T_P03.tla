------------------------------- MODULE T_P03 -------------------------------
EXTENDS TraceLib, RegionOps
(* contents used by the harness; rk is the 0-based global rank, k the 0-based flat position *)
XV(r, rk, k) == r.off + (k+1)*(2*rk+1) + rk*rk
YV(r, rk, k) == r.off + (k+2)*(3*rk+1) - rk
GP(r) == IF r.g = "p" THEN r.np ELSE r.na
RankOf(r, p, a, q) == IF r.g = "p" THEN (q-1)*r.na + (a-1) ELSE (p-1)*r.na + (q-1)
Loc(r, p, a, V(_, _), Sh(_)) == [q \in 1..GP(r) |-> [k \in 1..ProdSeq(Sh(q)) |-> V(RankOf(r,p,a,q), k-1)]]
FailedRank(r, p, a) ==
  LET P == GP(r)
      me == IF r.g = "p" THEN p ELSE a
      o == r.obs[(p-1)*r.na + a]
      X == Loc(r, p, a, LAMBDA rk, k : XV(r, rk, k), LAMBDA q : InShape(r.op, r.sh, r.dim, P, q))
      Y == Loc(r, p, a, LAMBDA rk, k : YV(r, rk, k), LAMBDA q : OutShape(r.op, r.sh, r.dim, P, q))
  IN Req("ForwardShape", o.out.sh = OutShape(r.op, r.sh, r.dim, P, me))
     \cup Req("ForwardValue", o.out.v = Fwd(r.op, X, r.sh, r.dim, P, me))
     \cup Req("GradShape", o.grad.sh = InShape(r.op, r.sh, r.dim, P, me))
     \cup Req("GradValue", o.grad.v = Bwd(r.op, Y, r.sh, r.dim, P, me))
     \cup Req("CallerTensorsKept", o.kept)
     \cup Req("DtypeKept", o.dtypeok)
LowPrec(r) == Req("SingleRounding", \A q \in 1..r.P : r.obs[q] # <<>> /\ \A k \in 1..Len(r.obs[q]) : r.obs[q][k] = r.base + (r.P - 1)) \cup Req("NoCommFault", r.faults = <<>>)
Failed(r) == IF r.kind = "lowprec" THEN LowPrec(r) ELSE UNION {FailedRank(r, p, a) : p \in 1..r.np, a \in 1..r.na} \cup Req("NoCommFault", r.faults = <<>>)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
