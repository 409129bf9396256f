------------------------------- MODULE T_Dist -------------------------------
(* Judges distributed-versus-serial runs.  Each item of a record is one result (output or  *)
(* gradient) of global shape gsh sharded as lay; obs has, per rank, the local shape and the *)
(* largest deviation from the rank's shard of the serial result in units of the last place. *)
EXTENDS TraceLib, Tensors
Tol(dt) == CASE dt \in {"f64", "c128"} -> 1000000 [] OTHER -> 4000
FailedItem(r, it) ==
  UNION {LET o == it.obs[(p-1)*r.na + a] IN
     Req("Shard." \o it.n, o.sh = LocShape(it.gsh, it.lay, r.np, r.na, p, a))
     \cup Req("Equal." \o it.n, o.res >= 0 /\ o.res <= Tol(r.dt)) : p \in 1..r.np, a \in 1..r.na}
Failed(r) == UNION {FailedItem(r, r.items[k]) : k \in 1..Len(r.items)}
  \cup Req("NoCommFault", r.faults = <<>>)
  \cup Req("NonTrivial", r.scale > 0)
  \cup Req("ReferenceAgrees", r.extra = <<>>)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
