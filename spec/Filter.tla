------------------------------- MODULE Filter -------------------------------
(* Filter bases on the disk: which functions a basis consists of, in which order, and which  *)
(* of them are axisymmetric.  A basis is a sequence of descriptors:                            *)
(*   piecewise linear  hat function around ring [i] and angle [j] (j = -1: no angular part)     *)
(*   harmonic          Hann window times sin/cos(fx pi x) times sin/cos(fy pi y)               *)
(*   zernike           radial degree n, azimuthal order m (sine for m < 0)                     *)
(*   fourier-bessel    J_m(alpha_{m,n} r) cos/sin(m phi), ordered by alpha                     *)
EXTENDS Integers, Sequences, FiniteSets
Half(n) == (n + 1) \div 2   \* ceil(n/2)
PL(nr, np) ==
  LET ang == np > 1
      inner == IF nr % 2 = 1 THEN <<[i |-> 0, j |-> -1]>> ELSE <<>>
      rings == nr \div 2
      first == IF nr % 2 = 1 THEN 1 ELSE 0 IN
  inner \o [k \in 1..rings*np |-> [i |-> first + ((k-1) \div np), j |-> IF ang THEN (k-1) % np ELSE -1]]
HARM(k0, k1) == [k \in 1..k0*k1 |-> LET n == (k-1) % k1  m == (k-1) \div k1 IN
  [fx |-> Half(n), sx |-> (n % 2 = 1), fy |-> Half(m), sy |-> (m % 2 = 1)]]
RECURSIVE ZERN(_)
ZERN(N) == IF N = 0 THEN <<>> ELSE ZERN(N-1) \o [l \in 1..N |-> [n |-> N-1, m |-> 2*(l-1) - (N-1)]]
(* zeros of the Bessel functions J_m, times 1e5: BZ[m+1][n] *)
BZ == << <<240483, 552008, 865373, 1179153, 1493092>>, <<383171, 701559, 1017347, 1332369, 1647063>>, <<513562, 841724, 1161984, 1479595, 1795982>>,
         <<638016, 976102, 1301520, 1622347, 1940942>>, <<758834, 1106471, 1437254, 1761597, 2082693>>, <<877148, 1233860, 1570017, 1898013, 2221780>>, <<993611, 1358929, 1700382, 2032079, 2358608>> >>
FBset(nmax, mmax) == {[m |-> m, n |-> n, c |-> c] : m \in 0..mmax, n \in 1..nmax, c \in {TRUE, FALSE}}
FBin(d, nmax) == BZ[d.m+1][d.n] <= BZ[1][nmax] /\ (d.m = 0 => d.c)
FBless(a, b) == BZ[a.m+1][a.n] < BZ[b.m+1][b.n] \/ (a.m = b.m /\ a.n = b.n /\ a.c /\ ~b.c)
FBsel(nmax, mmax) == {d \in FBset(nmax, mmax) : FBin(d, nmax)}
FB(nmax, mmax) == LET S == FBsel(nmax, mmax) IN
  [k \in 1..Cardinality(S) |-> CHOOSE d \in S : Cardinality({e \in S : FBless(e, d)}) = k-1]
Basis(t, k0, k1) == CASE t = "piecewise linear" -> PL(k0, k1) [] t = "harmonic" -> HARM(k0, k1) [] t = "morlet" -> HARM(k0, k1)
                      [] t = "zernike" -> ZERN(k0) [] t = "fourier-bessel" -> FB(k0, k1)
Iso(t, d) == CASE t = "piecewise linear" -> d.j = -1 [] t \in {"harmonic", "morlet"} -> d.fx = 0 /\ d.fy = 0
               [] t \in {"zernike", "fourier-bessel"} -> d.m = 0
Size(t, k0, k1) == CASE t = "piecewise linear" -> (k0 \div 2) * k1 + (k0 % 2) [] t \in {"harmonic", "morlet"} -> k0 * k1
                     [] t = "zernike" -> (k0 * (k0 + 1)) \div 2 [] t = "fourier-bessel" -> Cardinality(FBsel(k0, k1))
(* Exact piecewise linear values at an output point on the pole of an equiangular grid: the   *)
(* input point (h, w) has distance h (in latitude steps) and azimuth w/nlon of a turn; the     *)
(* cutoff is 1.001 * cm steps.  Numerators over PLden.                                          *)
Abs(x) == IF x < 0 THEN -x ELSE x
Max0(x) == IF x < 0 THEN 0 ELSE x
(* radial hat over den 4004*cm: ring radius in steps = (2i or 2i+1)/2 * dr, dr = 2*1.001*cm/(nr+1) *)
RHat(nr, cm, i, h) == LET c2 == IF nr % 2 = 1 THEN 2*i ELSE 2*i + 1 IN   \* ring centre in half dr
  Max0(4004*cm - Abs(2000*h*(nr+1) - 2002*cm*c2))
(* circular distance of fractions w/nlon and j/np - 1/2, over 2*nlon*np *)
CD(w, nlon, j, np) == LET D == 2*nlon*np  x == (2*w*np - 2*j*nlon + nlon*np) % D IN IF 2*x > D THEN D - x ELSE x
AHat(w, nlon, j, np) == Max0(2*nlon - CD(w, nlon, j, np))    \* over 2*nlon
Inside(cm, h) == 1000*h <= 1001*cm
PLval(nr, np, cm, nlon, d, h, w) == IF ~Inside(cm, h) THEN 0 ELSE
  IF d.j = -1 THEN RHat(nr, cm, d.i, h) * (2*nlon) ELSE
  RHat(nr, cm, d.i, h) * AHat(w, nlon, d.j, np)
    + (IF nr % 2 = 0 /\ d.i = 0 THEN Max0(4004*cm - (2000*h*(nr+1) + 2002*cm)) * (AHat((2*w + nlon) % (2*nlon), 2*nlon, d.j, np) \div 2) ELSE 0)
PLden(cm, nlon) == 4004*cm*2*nlon
=============================================================================
