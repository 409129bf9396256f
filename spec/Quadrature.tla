----------------------------- MODULE Quadrature -----------------------------
(* One-dimensional rules on an interval and their use on the sphere.                         *)
(* A rule is abstracted by the set of degrees it integrates exactly; the machine asks for a    *)
(* rule (n, interval, periodic) and then integrates monomials of growing degree.  Symmetric     *)
(* rules integrate every odd degree exactly.                                                    *)
EXTENDS Rules, TLC, Json
CONSTANTS Ns, Grids, Ivs
VARIABLES n, grid, iv, deg, exact
vars == <<n, grid, iv, deg, exact>>
MinNodes(g) == IF g = "legendre-gauss" THEN 1 ELSE 2
Init == n \in Ns /\ grid \in Grids /\ iv \in Ivs /\ n >= MinNodes(grid) /\ deg = -1 /\ exact = {}
Symmetric(d) == d % 2 = 1
Integrates(g, k, d) == d <= Exactness(g, k) \/ Symmetric(d)
Step == deg < Exactness(grid, n) + 2 /\ deg' = deg + 1 /\ exact' = (IF Integrates(grid, n, deg + 1) THEN exact \cup {deg + 1} ELSE exact) /\ UNCHANGED <<n, grid, iv>>
Next == Step
(* the rule is exact up to its degree, and a Gauss rule is never worse than any other *)
UpToDegree == \A d \in 0..deg : d <= Exactness(grid, n) => d \in exact
GaussBest == \A g \in Grids : n >= MinNodes(g) => Exactness(g, n) <= Exactness("legendre-gauss", n)
Scn == deg = Exactness(grid, n) + 2 => PrintT("SCN " \o ToJson([n |-> n, grid |-> grid, iv |-> iv]))
=============================================================================
