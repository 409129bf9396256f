-------------------------------- MODULE Attn --------------------------------
(* Quadrature-weighted softmax attention over neighbourhoods, in exact arithmetic.            *)
(* Logits are integer multiples of ln 2, so every softmax numerator is an integer 2^n * w and   *)
(* every probability is rational.  Tensors are flat row-major integer sequences [B,C,H,W];      *)
(* all indices are 0-based.  A neighbourhood pattern is a sequence of <<row, lat, lon>>:          *)
(*   gather  (down/same resolution): row = output latitude, (lat,lon) on the input grid, as seen   *)
(*            from output longitude 0; output longitude j sees it shifted by p*j, p = W \div V;      *)
(*   scatter (upsampling): row = input latitude, (lat,lon) on the output grid, as seen from input     *)
(*            longitude 0; input longitude i sees it shifted by p*i, p = V \div W.                       *)
(* W/V: number of input/output longitudes.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Gather(W, V) == W % V = 0
SumN(n, F(_)) == LET RECURSIVE G(_) G(m) == IF m = 0 THEN 0 ELSE F(m) + G(m-1) IN G(n)
At(x, C, H, W, b, c, h, w) == x[((b*C + c)*H + h)*W + w + 1]
(* input points seen by output point (o, j), as a set of <<lat, lon>> *)
Nbrs(P, W, V, o, j) ==
  IF Gather(W, V) THEN {<<P[e][2], (P[e][3] + (W \div V)*j) % W>> : e \in {e \in 1..Len(P) : P[e][1] = o}}
  ELSE UNION {{<<P[e][1], i>> : i \in {i \in 0..W-1 : (P[e][3] + (V \div W)*i) % V = j}} : e \in {e \in 1..Len(P) : P[e][2] = o}}
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n-1)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
(* num/den in units of 10^-d, truncated towards minus infinity (long division: no overflow) *)
FixDiv(num, den, d) ==
  LET RECURSIVE F(_, _, _) F(q, r, k) == IF k = 0 THEN q ELSE F(q*10 + ((r*10) \div den), (r*10) % den, k-1)
  IN F(num \div den, num % den, d)
(* the softmax at one output point and head: sequence of neighbours with integer numerators *)
(* logit n = sum_c q k ; head hd uses channels hd*dk .. hd*dk+dk-1                            *)
Logit(r, b, hd, o, j, x) == SumN(r.dk, LAMBDA c : At(r.q, r.nh*r.dk, r.Ho, r.V, b, hd*r.dk + c-1, o, j) * At(r.k, r.nh*r.dk, r.Hi, r.W, b, hd*r.dk + c-1, x[1], x[2]))
Point(r, b, hd, o, j) ==
  LET N == TLCEval(SetToSeq(Nbrs(r.P, r.W, r.V, o, j)))
      L == TLCEval([i \in 1..Len(N) |-> Logit(r, b, hd, o, j, N[i])])
      m == SetMin({L[i] : i \in 1..Len(N)})
      A == TLCEval([i \in 1..Len(N) |-> Pow2(L[i] - m) * r.w[N[i][1]+1]])
  IN [n |-> N, a |-> A, den |-> SumN(Len(N), LAMBDA i : A[i])]
Val(r, b, ch, x) == At(r.v, r.nh*r.dv, r.Hi, r.W, b, ch, x[1], x[2])
Key(r, b, ch, x) == At(r.k, r.nh*r.dk, r.Hi, r.W, b, ch, x[1], x[2])
Out(r, T, b, ch, d) == FixDiv(SumN(Len(T.n), LAMBDA i : T.a[i] * Val(r, b, ch, T.n[i])), T.den, d)
(* g_i = <gy, v_i> over the head's channels *)
GV(r, T, b, hd, o, j) == TLCEval([i \in 1..Len(T.n) |-> SumN(r.dv, LAMBDA c : At(r.gy, r.nh*r.dv, r.Ho, r.V, b, hd*r.dv + c-1, o, j) * Val(r, b, hd*r.dv + c-1, T.n[i]))])
(* derivative of the loss by logit i is  a_i (g_i den - sum a g) / den^2 *)
DL(T, g) == LET s == SumN(Len(T.n), LAMBDA i : T.a[i]*g[i]) IN TLCEval([i \in 1..Len(T.n) |-> T.a[i] * (g[i]*T.den - s)])
DQ(r, T, D, b, ch, d) == FixDiv(SumN(Len(T.n), LAMBDA i : D[i] * Key(r, b, ch, T.n[i])), T.den * T.den, d)
=============================================================================
