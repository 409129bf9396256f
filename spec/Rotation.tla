------------------------------ MODULE Rotation ------------------------------
(* Longitude rotations on equispaced grids.  A rotation by si steps of a grid with ni longitudes is a  *)
(* rotation by so steps of a grid with no longitudes iff si/ni = so/no (as angles).                      *)
EXTENDS Integers, Sequences
Corr(ni, no, si, so) == si * no = so * ni
(* operators that need one longitude count to divide the other *)
Admits(op, ni, no) ==
  CASE op \in {"conv", "att"} -> ni % no = 0
    [] op = "convt" -> no % ni = 0
    [] op = "natt" -> ni % no = 0 \/ no % ni = 0
    [] op \in {"sht", "vsht", "quad", "isht", "ivsht"} -> ni = no
    [] OTHER -> TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
(* y, z: rows x nlon outputs (flat, 1-based); z is y rotated by s steps east *)
Rotated(y, z, n, s, tol) == Len(y) = Len(z) /\ \A k \in 0..Len(y)-1 : LET w == k % n IN Abs(z[k - w + ((w + s) % n) + 1] - y[k+1]) <= tol
Same(y, z, tol) == Len(y) = Len(z) /\ \A k \in 1..Len(y) : Abs(z[k] - y[k]) <= tol
(* coefficients (re, im) flat over (channel, l, m): rotation by s of n steps multiplies order m by exp(-2 pi i m s / n); decided exactly for quarter turns *)
Quarter(n, s, m) == (4 * m * s) % n = 0
Turn(n, s, m) == ((4 * m * s) \div n) % 4
Phased(re, im, re2, im2, M, n, s, tol) ==
  \A k \in 0..Len(re)-1 : LET m == k % M IN Quarter(n, s, m) =>
     LET t == Turn(n, s, m) a == re[k+1] b == im[k+1]
         x == CASE t = 0 -> <<a, b>> [] t = 1 -> <<b, -a>> [] t = 2 -> <<-a, -b>> [] OTHER -> <<-b, a>>
     IN Abs(re2[k+1] - x[1]) <= tol /\ Abs(im2[k+1] - x[2]) <= tol
=============================================================================
