------------------------------- MODULE Trunc -------------------------------
(* Degree/order limits a grid supports (non-inclusive), and triangular truncation. *)
EXTENDS Integers, Partition
GridLmax(nlat, grid) ==
  CASE grid = "legendre-gauss" -> nlat
    [] grid = "lobatto" -> nlat - 1
    [] grid \in {"equiangular", "equiangular-trapezoidal"} -> (nlat + 1) \div 2
GridMmax(nlon) == nlon \div 2 + 1
(* 0 stands for "not requested" *)
Limit(nlat, nlon, lreq, mreq, grid) ==
  MinI(IF lreq = 0 THEN GridLmax(nlat, grid) ELSE lreq, IF mreq = 0 THEN GridMmax(nlon) ELSE mreq)
=============================================================================
