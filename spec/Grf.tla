-------------------------------- MODULE Grf --------------------------------
(* Random fields: (1) exact linear map from noise to coefficients for rational spectra,           *)
(* (2) the sampler as a state machine: the generator state is the seed and the draws made since.    *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pw(_, _)
Pw(b, e) == IF e = 0 THEN 1 ELSE b * Pw(b, e-1)
FixDiv(num, den, d) ==
  LET RECURSIVE F(_, _, _) F(q, r, k) == IF k = 0 THEN q ELSE F(q*10 + ((r*10) \div den), (r*10) % den, k-1)
  IN F(num \div den, num % den, d)
(* sqrt of the eigenvalue for degree l, half = alpha/2: sigma * (R^2/(l(l+1)+tau^2 R^2))^half, as <<numerator, denominator>> *)
Root(sigma, half, tau, R, l) == <<sigma * Pw(R*R, half), Pw(l*(l+1) + tau*tau*R*R, half)>>
(* default amplitude tau^(alpha-1) *)
DefSigma(half, tau) == Pw(tau, 2*half - 1)
(* coefficient (l,m) of the field from integer noise xi (one real or imaginary part), in 10^-d; no mean *)
CoefOf(sigma, half, tau, R, l, m, xi, d) == IF l = 0 \/ m > l THEN 0 ELSE LET q == Root(sigma, half, tau, R, l) IN FixDiv(xi * q[1], q[2], d)
(* ---- sampler ---- *)
(* rng: <<seed, draws>>; an action returns the identity of the field it must produce *)
Step(rng, a) ==
  CASE a[1] = "seed" -> [rng |-> <<a[2], <<>>>>, out |-> <<>>]
    [] a[1] = "sample" -> [rng |-> <<rng[1], Append(rng[2], a[2])>>, out |-> <<"s", rng[1], rng[2], a[2]>>]
    [] a[1] = "given" -> [rng |-> rng, out |-> <<"g", a[2]>>]
    [] OTHER -> [rng |-> rng, out |-> <<>>]   \* copying or moving the module does not touch the generator
Outs(acts) == LET RECURSIVE F(_, _, _) F(k, rng, o) == IF k > Len(acts) THEN o ELSE LET s == Step(rng, acts[k]) IN F(k+1, s.rng, Append(o, s.out)) IN F(1, <<0, <<>>>>, <<>>)
=============================================================================
