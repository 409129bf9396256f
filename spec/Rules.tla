------------------------------- MODULE Rules -------------------------------
(* Degrees of exactness of the quadrature rules (number of nodes n >= 2) and what they      *)
(* imply for harmonic analysis on the grid.                                                   *)
EXTENDS Trunc
Exactness(grid, n) ==
  CASE grid = "legendre-gauss" -> 2*n - 1
    [] grid = "lobatto" -> 2*n - 3
    [] grid = "equiangular" -> IF n % 2 = 1 THEN n ELSE n - 1
    [] grid = "equiangular-trapezoidal" -> 1
    [] OTHER -> 0
(* analysis of degree < L fields integrates products of two degree < L harmonics of equal order; *)
(* odd total degrees vanish by symmetry                                                            *)
ResolvesDegrees(grid, nlat, L) == 2*(L-1) <= Exactness(grid, nlat)
(* orders m, m2 < M are told apart by nlon equispaced samples of a real field; the Nyquist order    *)
(* (2m = nlon) is resolved in its real part only                                                    *)
Aliases(m, m2, nlon) == (m + m2) % nlon = 0 \/ (m - m2) % nlon = 0
ResolvesOrders(nlon, M) == \A m, m2 \in 0..M-1 : (m # m2 => ~Aliases(m, m2, nlon))
Nyquist(m, nlon) == 2*m = nlon
Exact(grid, nlat, nlon, L) == ResolvesDegrees(grid, nlat, L) /\ ResolvesOrders(nlon, L) /\ L <= GridMmax(nlon)
=============================================================================
