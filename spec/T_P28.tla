------------------------------- MODULE T_P28 -------------------------------
(* c: configuration, l: the same with the extents of this process's shard; built: the layer was built; obs[n]: <<"shape", ...>>, <<"refused">> (an exception before any communication), or <<"broken", why>>;    *)
(* same[n]: an answer equals that of a fresh layer with the same parameters; keep: parameters and buffers as after building              *)
EXTENDS TraceLib
K == INSTANCE Contract
Failed(r) == IF ~r.ok THEN {"NoCrash"} ELSE
  IF ~K!Admissible(r.c) THEN Req("RefusesConfiguration", ~r.built)
  ELSE Req("BuildsContract", r.built) \cup (IF ~r.built THEN {} ELSE
     LET E(n) == IF K!Accepts(r.l, r.h[n].ss) THEN <<"shape">> \o K!Out(r.l, r.h[n].ss) ELSE <<"refused">> IN
     Req("RefusesMisuse", \A n \in 1..Len(r.h) : E(n) = <<"refused">> => r.obs[n] = E(n))
     \cup Req("ServesContract", \A n \in 1..Len(r.h) : E(n) # <<"refused">> => r.obs[n] = E(n))
     \cup Req("RefusalLeavesNoTrace", \A n \in 1..Len(r.h) : r.same[n])
     \cup Req("NothingModified", r.keep))
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
