----------------------------- MODULE Contract -----------------------------
(* What the layers accept.  A layer is built for one configuration and addresses the points of the grid it was built for: it answers  *)
(* exactly the calls whose fields live on that grid, and refuses every other call before touching memory; a configuration outside the  *)
(* documented choices is refused when the layer is built.  Shapes are sequences of extents; a call has one field, attention has three.  *)
EXTENDS Integers, Sequences, FiniteSets
Sht == {"sht", "vsht"}
Isht == {"isht", "ivsht"}
Conv == {"conv", "convt"}
Att == {"natt", "att"}
Fams == Sht \cup Isht \cup Conv \cup Att \cup {"res", "quad", "spc"}
Nodes == {"equiangular", "legendre-gauss", "lobatto"}
Modes == {"bilinear", "bilinear-spherical"}
Bases == {"piecewise linear", "morlet", "zernike"}
BNorms == {"nodal", "mean", "support", "none"}
Div(a, b) == b > 0 /\ a % b = 0
(* configurations a layer can be built for *)
Admissible(c) ==
  /\ c.fam \notin Isht => c.gi \in Nodes
  /\ c.fam \in Isht \cup Conv \cup {"natt", "res", "spc"} => c.go \in Nodes
  /\ c.fam = "res" => c.mode \in Modes
  /\ c.fam \in Conv => c.basis \in Bases /\ c.bnorm \in BNorms /\ c.tc > 0 /\ Div(c.ci, c.g) /\ Div(c.co, c.g)
  /\ c.fam = "spc" => Div(c.ci, c.g) /\ Div(c.co, c.g)
  /\ c.fam \in Att => Div(c.kc, c.g) /\ Div(c.co, c.g)
  /\ c.fam = "natt" => c.tc > 0
  /\ c.fam \in {"conv", "att"} => Div(c.W, c.Wo)
  /\ c.fam = "convt" => Div(c.Wo, c.W)
  /\ c.fam = "natt" => Div(c.W, c.Wo) \/ Div(c.Wo, c.W)
(* the fields of a call: fewest dimensions, exactly that many or more, channels (0: any), the two extents of the grid *)
Slot(lo, fix, ch, h, w) == [lo |-> lo, fix |-> fix, ch |-> ch, h |-> h, w |-> w]
Slots(c) ==
  CASE c.fam = "sht" \/ c.fam = "res" \/ c.fam = "quad" -> <<Slot(2, FALSE, 0, c.H, c.W)>>
    [] c.fam = "vsht" -> <<Slot(3, FALSE, 2, c.H, c.W)>>
    [] c.fam = "isht" -> <<Slot(2, FALSE, 0, c.L, c.M)>>
    [] c.fam = "ivsht" -> <<Slot(3, FALSE, 2, c.L, c.M)>>
    [] c.fam \in Conv \cup {"spc"} -> <<Slot(4, TRUE, c.ci, c.H, c.W)>>
    [] OTHER -> <<Slot(4, TRUE, c.ci, c.Ho, c.Wo), Slot(4, TRUE, c.ci, c.H, c.W), Slot(4, TRUE, c.ci, c.H, c.W)>>
H(s) == s[Len(s)-1]
W(s) == s[Len(s)]
Fits(k, s) == /\ IF k.fix THEN Len(s) = k.lo ELSE Len(s) >= k.lo
              /\ k.ch # 0 => s[Len(s)-2] = k.ch
              /\ H(s) = k.h /\ W(s) = k.w
Accepts(c, ss) == /\ Len(ss) = Len(Slots(c)) /\ \A k \in 1..Len(ss) : Fits(Slots(c)[k], ss[k])
                  /\ \A k \in 1..Len(ss) : c.fam \in Att => ss[k][1] = ss[1][1]
Lead(s, n) == SubSeq(s, 1, Len(s) - n)
Out(c, ss) ==
  CASE c.fam \in Sht -> Lead(ss[1], 2) \o <<c.L, c.M>>
    [] c.fam \in Isht \cup {"res"} -> Lead(ss[1], 2) \o <<c.Ho, c.Wo>>
    [] c.fam = "quad" -> Lead(ss[1], 2)
    [] OTHER -> <<ss[1][1], c.co, c.Ho, c.Wo>>
(* ---- why: addresses ----  the layer reads Reads(k) of a field whose samples are Points(s) *)
Reads(k) == (0..k.h-1) \X (0..k.w-1)
Points(s) == (0..H(s)-1) \X (0..W(s)-1)
Danger(k, s) == IF Len(s) < 2 THEN "rank" ELSE
  CASE ~(Reads(k) \subseteq Points(s)) -> "outside" [] ~(Points(s) \subseteq Reads(k)) -> "unread" [] OTHER -> "none"
(* ---- deviations of one field from the grid ---- *)
Base(k, b) == <<b, IF k.ch = 0 THEN 3 ELSE k.ch, k.h, k.w>>
Vary(v, k, b) == LET s == Base(k, b) IN
  CASE v = "ok" -> s
    [] v = "h+" -> [s EXCEPT ![3] = @ + 1] [] v = "h-" -> [s EXCEPT ![3] = @ - 1] [] v = "h2" -> [s EXCEPT ![3] = 2 * @] [] v = "h1" -> [s EXCEPT ![3] = 1]
    [] v = "w+" -> [s EXCEPT ![4] = @ + 1] [] v = "w-" -> [s EXCEPT ![4] = @ - 1] [] v = "w2" -> [s EXCEPT ![4] = 2 * @] [] v = "w1" -> [s EXCEPT ![4] = 1]
    [] v = "wh" -> [s EXCEPT ![4] = @ \div 2] [] v = "swap" -> <<s[1], s[2], s[4], s[3]>> [] v = "flat" -> <<s[1], s[2], 1, s[3] * s[4]>>
    [] v = "mix" -> [s EXCEPT ![3] = @ + 1, ![4] = 2 * @]
    [] v = "c+" -> [s EXCEPT ![2] = @ + 1] [] v = "c-" -> [s EXCEPT ![2] = @ - 1] [] v = "c2" -> [s EXCEPT ![2] = 2 * @]
    [] v = "b+" -> [s EXCEPT ![1] = @ + 1]
    [] v = "r-" -> Tail(s) [] v = "r--" -> Tail(Tail(s)) [] v = "r1" -> <<s[4]>> [] v = "r+" -> <<1>> \o s
Devs == {"h+", "h-", "h2", "h1", "w+", "w-", "w2", "w1", "wh", "swap", "flat", "mix", "c+", "c-", "c2", "b+", "r-", "r--", "r1", "r+"}
(* a call: the deviation of one field, the others as they should be *)
Shapes(c, k, v, b) == [j \in 1..Len(Slots(c)) |-> IF j = k THEN Vary(v, Slots(c)[j], b) ELSE Vary("ok", Slots(c)[j], b)]
Empty(s) == \E j \in 1..Len(s) : s[j] < 1
(* left open by the documentation: a field of one latitude or longitude is a field constant along it for a quadrature *)
Open(c, k, v) == (c.fam = "quad" /\ v \in {"h1", "w1", "flat", "r1"}) \/ (c.fam = "att" /\ v = "b+") \/ Empty(Vary(v, Slots(c)[k], 2))
Result(c, ss) == IF ~Admissible(c) THEN <<"unbuilt">> ELSE IF Accepts(c, ss) THEN <<"shape">> \o Out(c, ss) ELSE <<"refused">>
=============================================================================
