------------------------------- MODULE Fourier -------------------------------
(* Longitudinal Fourier modes of real signals of length n, kept up to nm modes.              *)
(* Bins(n) are the modes a real signal of length n has; a mode is "self-conjugate" when the   *)
(* grid only represents its real part (order 0 and, for even n, the Nyquist order).             *)
EXTENDS Integers, Sequences
Avail(n) == n \div 2 + 1
SelfConj(m, n) == m = 0 \/ 2*m = n
(* analysis keeps min(nm, Avail(n)) leading modes and pads with zeros *)
Kept(n, nm) == {m \in 0..nm-1 : m < Avail(n)}
Padded(n, nm) == (0..nm-1) \ Kept(n, nm)
(* real degrees of freedom carried by the kept modes *)
Dof(n, nm) == LET S == {m \in Kept(n, nm) : SelfConj(m, n)}
                  card[k \in 0..nm] == IF k = 0 THEN 0 ELSE card[k-1] + (IF (k-1) \in Kept(n, nm) THEN (IF (k-1) \in S THEN 1 ELSE 2) ELSE 0)
              IN card[nm]
(* exact transforms where the twiddle factors are powers of i: n \in {1,2,4}                   *)
(* e^{-2 pi i m j / n} = (-i)^(4 m j / n) as <<re, im>>                                          *)
Tw(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, -1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
RECURSIVE SumRe(_, _, _, _)
SumRe(x, m, n, j) == IF j = n THEN 0 ELSE x[j+1] * Tw((4 * m * j) \div n)[1] + SumRe(x, m, n, j+1)
RECURSIVE SumIm(_, _, _, _)
SumIm(x, m, n, j) == IF j = n THEN 0 ELSE x[j+1] * Tw((4 * m * j) \div n)[2] + SumIm(x, m, n, j+1)
(* unnormalised analysis as sequences of real and imaginary parts, padded with zeros *)
DftRe(x, n, nm) == [k \in 1..nm |-> IF (k-1) \in Kept(n, nm) THEN SumRe(x, k-1, n, 0) ELSE 0]
DftIm(x, n, nm) == [k \in 1..nm |-> IF (k-1) \in Kept(n, nm) THEN SumIm(x, k-1, n, 0) ELSE 0]
(* n times the inverse with the "backward" convention, j = 0..n-1, from modes (re, im) *)
RECURSIVE InvAt(_, _, _, _, _)
InvAt(re, im, n, j, m) ==
  IF m = Len(re) \/ m >= Avail(n) THEN 0
  ELSE (IF SelfConj(m, n) THEN re[m+1] * Tw((4 * m * j) \div n)[1]
        ELSE 2 * (re[m+1] * Tw((4 * m * j) \div n)[1] + im[m+1] * Tw((4 * m * j) \div n)[2])) + InvAt(re, im, n, j, m+1)
Inverse(re, im, n) == [j \in 1..n |-> InvAt(re, im, n, j-1, 0)]
=============================================================================
