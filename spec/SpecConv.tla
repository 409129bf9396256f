------------------------------ MODULE SpecConv ------------------------------
(* Spectral convolution on coefficients.  Complex numbers are <<re, im>> with integer parts.    *)
(* u: function [0..C-1] x [0..L-1] x [0..L-1] (channel, degree, order); K: group, in, out, degree; *)
(* b: bias per channel, degree, order; n: integral of each channel over the sphere.                 *)
EXTENDS Trunc, Sequences
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CAdd(a, b) == <<a[1]+b[1], a[2]+b[2]>>
RECURSIVE CSum(_, _)
CSum(F, k) == IF k = 0 THEN <<0,0>> ELSE CAdd(F[k], CSum(F, k-1))
SpecLimit(h1, w1, g1, h2, w2, g2) == MinI(Limit(h1, w1, 0, 0, g1), Limit(h2, w2, 0, 0, g2))
(* output channel o of group o \div Og mixes the input channels of the same group, degree by degree *)
Mixed(U(_,_,_), K(_,_,_,_), C, O, G, o, l, m) ==
  LET Ci == C \div G  Co == O \div G  g == o \div Co IN
  CSum([i \in 1..Ci |-> CMul(U(g*Ci + i-1, l, m), K(g, i-1, o % Co, l))], Ci)
(* what the output grid with V longitudes can show: order <= degree; real part only at order 0 and at the Nyquist order *)
Shown(z, l, m, V) == IF m > l THEN <<0,0>> ELSE IF m = 0 \/ 2*m = V THEN <<z[1], 0>> ELSE z
=============================================================================
