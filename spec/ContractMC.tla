---------------------------- MODULE ContractMC ----------------------------
EXTENDS Contract, TLC, Json
CONSTANTS Sizes, Len0
VARIABLES c, h, touched
Good(f, z) == [fam |-> f, H |-> z[1], W |-> z[2], Ho |-> z[3], Wo |-> z[4], ci |-> z[5], co |-> z[6], g |-> z[7], kc |-> z[8], L |-> z[9], M |-> z[10],
               gi |-> "equiangular", go |-> "equiangular", norm |-> "ortho", mode |-> "bilinear", basis |-> "piecewise linear", bnorm |-> "nodal", tc |-> 1, bad |-> "none"]
(* one thing wrong with a configuration *)
Bad(x, d) == LET y == [x EXCEPT !.bad = d] IN
  CASE d = "none" -> y
    [] d = "gi" -> [y EXCEPT !.gi = "gauss"] [] d = "go" -> [y EXCEPT !.go = "gauss"]
    [] d = "mode" -> [y EXCEPT !.mode = "nearest"]
    [] d = "basis" -> [y EXCEPT !.basis = "gabor"] [] d = "bnorm" -> [y EXCEPT !.bnorm = "unit"]
    [] d = "tc0" -> [y EXCEPT !.tc = 0] [] d = "tc-" -> [y EXCEPT !.tc = -1]
    [] d = "g+" -> [y EXCEPT !.g = @ + 1] [] d = "g0" -> [y EXCEPT !.g = 0] [] d = "co" -> [y EXCEPT !.co = @ + 1] [] d = "ci" -> [y EXCEPT !.ci = @ + 1] [] d = "kc" -> [y EXCEPT !.kc = @ + 1]
    [] d = "w" -> [y EXCEPT !.Wo = @ + 1] [] d = "turn" -> [y EXCEPT !.W = y.Wo, !.Wo = y.W]
Wrongs == {"none", "gi", "go", "mode", "basis", "bnorm", "tc0", "tc-", "g+", "g0", "co", "ci", "kc", "w", "turn"}
Cfgs == {Bad(Good(f, z), d) : f \in Fams, z \in Sizes, d \in Wrongs}
(* spectral and longitudinal counts of the transforms are derived from the grid *)
Legal(x) == /\ x.bad = "none" \/ ~Admissible(x)
            /\ x.fam \in Sht \cup Isht => x.W = x.Wo /\ x.H = x.Ho
            /\ x.L <= x.H /\ 2 * x.M <= x.W + 2
Init == c \in {x \in Cfgs : Legal(x)} /\ h = <<>> /\ touched = {}
Call(k, v) == LET ss == Shapes(c, k, v, 2) r == Result(c, ss) IN
   /\ h' = Append(h, [k |-> k, v |-> v, ss |-> ss, r |-> r, d |-> Danger(Slots(c)[k], ss[k])])
   /\ touched' = IF r[1] = "shape" THEN UNION {{j} \X Reads(Slots(c)[j]) : j \in 1..Len(ss)} ELSE {}
   /\ UNCHANGED c
Next == /\ Admissible(c) /\ Len(h) < Len0
        /\ \E k \in 1..Len(Slots(c)), v \in Devs \cup {"ok"} : (v = "ok" => k = 1) /\ ~Open(c, k, v) /\ Call(k, v)
(* a call is answered iff the addresses of the layer are the samples of the field, whatever came before; nothing is read outside *)
Exact == \A n \in 1..Len(h) : \A j \in 1..Len(h[n].ss) : h[n].r[1] = "shape" => Reads(Slots(c)[j]) = Points(h[n].ss[j])
InBounds == h # <<>> => LET ss == h[Len(h)].ss IN touched \subseteq UNION {{j} \X (IF Len(ss[j]) < 2 THEN {} ELSE Points(ss[j])) : j \in 1..Len(ss)}
Refuses == \A n \in 1..Len(h) : h[n].d # "none" => h[n].r = <<"refused">>
Serves == \A n \in 1..Len(h) : h[n].v = "ok" => h[n].r[1] = "shape"
Scn == (~Admissible(c) \/ Len(h) = Len0) => PrintT("SCN " \o ToJson([c |-> c, adm |-> Admissible(c), h |-> [n \in 1..Len(h) |-> [k |-> h[n].k, v |-> h[n].v, ss |-> h[n].ss, d |-> h[n].d, a |-> h[n].r[1]]]]))
=============================================================================
