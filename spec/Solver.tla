------------------------------- MODULE Solver -------------------------------
(* Time stepping of the shallow-water solver.  A run is a sequence of calls; each call starts the multistep *)
(* method afresh: forward Euler, one two-step formula, then third-order Adams-Bashforth.  Tendencies are     *)
(* given per step; dt = 12, so that the coefficients are integers.  D: damping of the component (1 = none).  *)
(* a: weight of the newest tendency in the two-step formula (18: Adams-Bashforth 2, 28: as implemented).     *)
EXTENDS Integers, Sequences
Incr(a, f, n) == CASE n = 1 -> 12 * f[1]
                   [] n = 2 -> a * f[2] + (12 - a) * f[1]
                   [] OTHER -> 23 * f[n] - 16 * f[n-1] + 5 * f[n-2]
(* state [u, f]: value and the tendencies used so far in this call *)
StepS(D, a, s, t) == LET g == Append(s.f, t) IN [u |-> D * (s.u + Incr(a, g, Len(g))), f |-> g]
Call(s) == [s EXCEPT !.f = <<>>]
RECURSIVE Play(_, _, _, _, _)
(* h: sequence of tendencies; -99 starts a new call *)
Play(D, a, h, k, s) == IF k > Len(h) THEN s.u ELSE Play(D, a, h, k+1, IF h[k] = -99 THEN Call(s) ELSE StepS(D, a, s, h[k]))
Final(D, a, u0, h) == Play(D, a, h, 1, [u |-> u0, f |-> <<>>])
=============================================================================
