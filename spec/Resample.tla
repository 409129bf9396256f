------------------------------ MODULE Resample ------------------------------
(* Bilinear resampling on the sphere in fixed-point arithmetic.                                *)
(* Node colatitudes are integers (10^-6 rad), ascending; longitudes are equispaced, so their     *)
(* interpolation is exact.  Field values are integers in units of 10^-3 of the input values.       *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
PI6 == 3141593
FixDiv(num, den, d) ==
  LET RECURSIVE F(_, _, _) F(q, r, k) == IF k = 0 THEN q ELSE F(q*10 + ((r*10) \div den), (r*10) % den, k-1)
  IN F(num \div den, num % den, d)
RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeq(s, n-1)
(* pole rows are needed when an output latitude lies beyond the input latitudes (1e-6 tolerance: then the weights are continuous) *)
Beyond(ti, to) == \E i \in 1..Len(to) : to[i] < ti[1] - 1 \/ to[i] > ti[Len(ti)] + 1
MeanRow(row) == LET m == FixDiv(SumSeq(row, Len(row)), Len(row), 0) IN [j \in 1..Len(row) |-> m]
(* rows including the poles: each pole carries the mean of the outermost row *)
Rows(x, pole) == IF pole THEN <<MeanRow(x[1])>> \o x \o <<MeanRow(x[Len(x)])>> ELSE x
Nodes(ti, pole) == IF pole THEN <<0>> \o ti \o <<PI6>> ELSE ti
(* enclosing interval of a colatitude *)
Left(nd, t) == LET S == {i \in 1..Len(nd)-1 : nd[i] <= t} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : j <= i
Frac4(nd, l, t) == LET f == FixDiv(t - nd[l], nd[l+1] - nd[l], 4) IN IF f < 0 THEN 0 ELSE IF f > 10000 THEN 10000 ELSE f
Lerp4(a, b, f) == (a*(10000-f) + b*f) \div 10000
(* x: sequence of rows in units 10^-3; result: rows on the output grid *)
LatStep(x, ti, to) ==
  LET pole == Beyond(ti, to)  nd == Nodes(ti, pole)  R == Rows(x, pole) IN
  [i \in 1..Len(to) |-> LET l == Left(nd, to[i])  f == Frac4(nd, l, to[i]) IN [j \in 1..Len(x[1]) |-> Lerp4(R[l][j], R[l+1][j], f)]]
LonStep(x, V) ==
  LET W == Len(x[1]) IN
  [i \in 1..Len(x) |-> [j \in 1..V |-> LET p == (j-1)*W  l == p \div V  r == p % V IN
      (x[i][(l % W)+1]*(V-r) + x[i][((l+1) % W)+1]*r) \div V]]
Resampled(x, ti, to, V) == LonStep(LatStep(x, ti, to), V)
(* ---- exact variant for equiangular grids: numerators over (Ho-1)*V ---- *)
EquiNum(x, Ho, V, i, j) ==
  LET Hi == Len(x)  W == Len(x[1])
      lt == (i*(Hi-1)) \div (Ho-1)  l == IF lt = Hi-1 THEN Hi-2 ELSE lt  f == i*(Hi-1) - l*(Ho-1)
      w0 == (j*W) \div V  g == (j*W) % V
      at(a, b) == x[a+1][(b % W)+1]
      row(b) == at(l, b)*(Ho-1-f) + at(l+1, b)*f IN
  row(w0)*(V-g) + row(w0+1)*g
=============================================================================
