-------------------------------- MODULE Disco --------------------------------
(* Discrete-continuous convolution as a sum over the entries of a sparse filter.             *)
(* Filter: sequence of <<k, r, h, w, v>> : kernel index, row (latitude of the coarse side),   *)
(* latitude and longitude on the fine side, value.  Fine side has W longitudes, coarse side   *)
(* V longitudes with W = p * V; coarse longitude j sees the filter shifted by p*j.              *)
(* All tensors are flat row-major integer sequences; all indices are 0-based.                   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_, _)
SumSeq(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeq(f, n-1)
SumOver(n, F(_)) == LET RECURSIVE G(_) G(m) == IF m = 0 THEN 0 ELSE F(m) + G(m-1) IN G(n)
At4(x, d2, d3, d4, a, b, c, d) == x[((a*d2 + b)*d3 + c)*d4 + d + 1]
(* fine -> coarse contraction of one plane: value at (k, r, j) *)
Contract(P, x, C, H, W, V, b, c, k, r, j) ==
  LET p == W \div V IN
  SumOver(Len(P), LAMBDA e : IF P[e][1] = k /\ P[e][2] = r
                             THEN P[e][5] * At4(x, C, H, W, b, c, P[e][3], (P[e][4] + p*j) % W) ELSE 0)
(* coarse -> fine contraction of one plane for kernel k: value at (h, w); y(r, j) a plane reader *)
Spread(P, Y(_, _), W, V, k, h, w) ==
  LET p == W \div V IN
  SumOver(Len(P), LAMBDA e : IF P[e][1] = k /\ P[e][3] = h /\ (w - P[e][4]) % p = 0
                             THEN P[e][5] * Y(P[e][2], (((w - P[e][4]) % W) \div p)) ELSE 0)
(* ---- forward layer: x[B,C,H,W] -> y[B,O,R,V], weights w[O,Cg,K], bias b[O] ---- *)
GroupOf(o, Og) == o \div Og
Wt(w, Cg, K, o, c, k) == w[(o*Cg + c)*K + k + 1]
Dims(n, ds) == (* 0-based index tuple of flat position n (0-based) for dims ds *)
  LET RECURSIVE F(_, _) F(i, q) == IF i = 0 THEN <<>> ELSE Append(F(i-1, q \div ds[i]), q % ds[i]) IN F(Len(ds), n)
Size(ds) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 1 ELSE ds[i] * F(i-1) IN F(Len(ds))
Build(ds, F(_)) == [n \in 1..Size(ds) |-> F(Dims(n-1, ds))]
(* expanded tensor z[B,C,K,R,V] *)
Expand(P, x, B, C, H, W, K, R, V) == Build(<<B, C, K, R, V>>, LAMBDA t : Contract(P, x, C, H, W, V, t[1], t[2], t[3], t[4], t[5]))
At5(z, d2, d3, d4, d5, a, b, c, d, e) == z[(((a*d2 + b)*d3 + c)*d4 + d)*d5 + e + 1]
ConvOut(P, z, w, bias, B, C, K, R, V, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<B, O, R, V>>, LAMBDA t : bias[t[2]+1] + SumOver(Cg, LAMBDA c : SumOver(K, LAMBDA k :
     Wt(w, Cg, K, t[2], c-1, k-1) * At5(z, C, K, R, V, t[1], GroupOf(t[2], Og)*Cg + c-1, k-1, t[3], t[4]))))
ConvGradX(P, gy, w, B, C, H, W, K, R, V, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<B, C, H, W>>, LAMBDA t : SumOver(K, LAMBDA k : Spread(P,
     LAMBDA r, j : SumOver(Og, LAMBDA o : Wt(w, Cg, K, GroupOf(t[2], Cg)*Og + o-1, t[2] % Cg, k-1) * At4(gy, O, R, V, t[1], GroupOf(t[2], Cg)*Og + o-1, r, j)),
     W, V, k-1, t[3], t[4])))
ConvGradW(z, gy, B, C, K, R, V, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<O, Cg, K>>, LAMBDA t : SumOver(B, LAMBDA b : SumOver(R, LAMBDA r : SumOver(V, LAMBDA j :
     At4(gy, O, R, V, b-1, t[1], r-1, j-1) * At5(z, C, K, R, V, b-1, GroupOf(t[1], Og)*Cg + t[2], t[3], r-1, j-1)))))
GradBias(gy, B, O, R, V) == Build(<<O>>, LAMBDA t : SumOver(B, LAMBDA b : SumOver(R, LAMBDA r : SumOver(V, LAMBDA j : At4(gy, O, R, V, b-1, t[1], r-1, j-1)))))
(* ---- transposed layer: x[B,C,R,V] -> y[B,O,H,W] ---- *)
TransOut(P, x, w, bias, B, C, R, V, K, H, W, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<B, O, H, W>>, LAMBDA t : bias[t[2]+1] + SumOver(K, LAMBDA k : Spread(P,
     LAMBDA r, j : SumOver(Cg, LAMBDA c : Wt(w, Cg, K, t[2], c-1, k-1) * At4(x, C, R, V, t[1], GroupOf(t[2], Og)*Cg + c-1, r, j)),
     W, V, k-1, t[3], t[4])))
(* its gradients use the contraction of gy: zy[B,O,K,R,V] *)
TransGradX(zy, w, B, C, K, R, V, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<B, C, R, V>>, LAMBDA t : SumOver(Og, LAMBDA o : SumOver(K, LAMBDA k :
     Wt(w, Cg, K, GroupOf(t[2], Cg)*Og + o-1, t[2] % Cg, k-1) * At5(zy, O, K, R, V, t[1], GroupOf(t[2], Cg)*Og + o-1, k-1, t[3], t[4]))))
TransGradW(zy, x, B, C, K, R, V, O, G) ==
  LET Cg == C \div G  Og == O \div G IN
  Build(<<O, Cg, K>>, LAMBDA t : SumOver(B, LAMBDA b : SumOver(R, LAMBDA r : SumOver(V, LAMBDA j :
     At4(x, C, R, V, b-1, GroupOf(t[1], Og)*Cg + t[2], r-1, j-1) * At5(zy, O, K, R, V, b-1, t[1], t[3], r-1, j-1)))))
=============================================================================
