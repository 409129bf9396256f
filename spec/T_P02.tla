------------------------------- MODULE T_P02 -------------------------------
(* Judges recorded runs of real transposes.  A record holds, for every step of a         *)
(* behaviour of Reshard and for every rank, the shape and flat content of its tensor     *)
(* (element with global flat index g carries g+1), then the gradients of the run.        *)
EXTENDS TraceLib, Tensors
RECURSIVE LayAfter(_, _, _)
LayAfter(lay, ops, k) == IF k = 0 THEN lay
   ELSE LET l == LayAfter(lay, ops, k-1) IN [l EXCEPT ![ops[k].d1] = "n", ![ops[k].d0] = ops[k].g]
ShardsOK(r, lay, obs, Val(_)) ==
  \A p \in 1..r.np, a \in 1..r.na :
     LET o == obs[(p-1)*r.na + a] IN
     /\ o.sh = LocShape(r.sh, lay, r.np, r.na, p, a)
     /\ o.v = ShardOf(r.sh, lay, r.np, r.na, p, a, Val)
Failed(r) ==
  UNION {Req("StepPlaced", ShardsOK(r, LayAfter(r.lay, r.ops, k), r.fwd[k], LAMBDA g : g + 1)) : k \in 1..Len(r.ops)}
  \cup Req("GradientReverse", r.grad = <<>> \/ ShardsOK(r, r.lay, r.grad, LAMBDA g : 2*g + 3))
  \cup Req("InputUnchanged", r.inputok)
  \cup Req("DtypeKept", r.dtypeok)
  \cup Req("NoCommFault", r.faults = <<>>)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
