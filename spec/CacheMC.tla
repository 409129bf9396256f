------------------------------ MODULE CacheMC ------------------------------
(* all histories of calls, modifications, drops and evictions; the caching machine against what users rely on *)
EXTENDS Cache, TLC, Json
CONSTANTS Len0
VARIABLES h, s, m
vars == <<h, s, m>>
Live == {k \in 1..Len(s.exp) : s.exp[k] > 0}
Acts == {<<"call", a>> : a \in Args} \cup {<<"mut", k>> : k \in Live} \cup {<<"drop", k>> : k \in Live} \cup {<<"arg", a, v>> : a \in Args, v \in Vals} \cup {<<"flood", 0>>, <<"renew", 0>>}
(* histories are generated up to obvious equivalence: no argument change to the same value, no two consecutive no-ops *)
Useful(act) == /\ (act[1] = "arg" => s.val[act[2]] # act[3])
               /\ (h # <<>> /\ act[1] \in {"flood", "renew"} => h[Len(h)][1] \notin {"flood", "renew"})
               /\ (h = <<>> => act[1] = "call")
Init == h = <<>> /\ s = Start /\ m = MStart
Next == Len(h) < Len0 /\ \E act \in Acts : Useful(act) /\ h' = Append(h, act) /\ s' = Spec1(s, act) /\ m' = MStep(m, act)
Isolated == \A k \in 1..Len(s.exp) : s.exp[k] > 0 => Content(m, k) = s.exp[k]
Scn == (Len(h) = Len0 /\ h[Len0][1] \in {"call", "mut"} /\ \E k \in 2..Len0 : h[k][1] = "call") => PrintT("SCN " \o ToJson([h |-> h]))
=============================================================================
