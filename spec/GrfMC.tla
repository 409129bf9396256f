------------------------------- MODULE GrfMC -------------------------------
(* All histories of the sampler up to a length; the fields an action must produce depend only on  *)
(* the noise: supplied noise never disturbs the generator, equal generator states give equal fields. *)
EXTENDS Grf, TLC, Json
CONSTANTS Len0, Nlats, Halfs, Taus, Radii, Sigmas
VARIABLES h, rng
Acts == {<<"seed", 1>>, <<"seed", 2>>, <<"sample", 1>>, <<"sample", 2>>, <<"given", 1>>, <<"given", 2>>, <<"copy", 0>>, <<"to", 0>>}
Init == \/ h = <<>> /\ rng = <<0, <<>>>>
        \/ \E n \in Nlats, a \in Halfs, t \in Taus, R \in Radii, s \in Sigmas : h = <<[nlat |-> n, half |-> a, tau |-> t, R |-> R, sigma |-> s]>> /\ rng = <<-1, <<>>>>
Next == rng[1] # -1 /\ Len(h) < Len0 /\ \E a \in Acts : h' = Append(h, a) /\ rng' = Step(rng, a).rng
GivenIsPure == rng[1] # -1 => \A k \in 1..Len(h) : h[k][1] \in {"given", "copy", "to"} => (k = Len(h) \/ Outs(h)[Len(h)] = Outs(SubSeq(h, 1, k-1) \o SubSeq(h, k+1, Len(h)))[Len(h)-1])
Reseed == rng[1] # -1 => \A k \in 1..Len(h) : h[k][1] = "seed" => SubSeq(Outs(h), k+1, Len(h)) = SubSeq(Outs(SubSeq(h, k, Len(h))), 2, Len(h)-k+1)
Hist == (rng[1] # -1 /\ Len(h) = Len0 /\ h[1][1] = "seed" /\ \E k \in 1..Len(h) : h[k][1] \in {"sample", "given"}) => PrintT("SCN " \o ToJson([h |-> h]))
Cfg == rng[1] = -1 => PrintT("CFG " \o ToJson(h[1]))
=============================================================================
