---------------------------- MODULE PrecisionMC ----------------------------
EXTENDS Precision, TLC, Json, FiniteSets
CONSTANTS Len0, Depth
VARIABLES c, h, stack, ans
Cfgs == {[fam |-> f, md |-> m, bias |-> b, opt |-> o] : f \in Fams, m \in {"f32", "f64", "bf16"}, b \in BOOLEAN, o \in BOOLEAN}
Legal(x) == /\ x.fam \in Trans \cup {"quad", "res", "att", "natt"} => x.bias
            /\ x.fam \notin Conv \cup {"natt"} => x.opt
            /\ x.fam = "spc" => x.md = "f32"
            /\ x.fam \in Trans \cup {"res"} => x.md = "f32"
Init == c \in {x \in Cfgs : Legal(x)} /\ h = <<>> /\ stack = <<>> /\ ans = <<>>
Acts == {<<"enter", t>> : t \in Low \cup {"off"}} \cup {<<"exit", "">>, <<"fail", "f32">>} \cup {<<"call", d>> : d \in Types}
(* one outermost region uses one 16-bit type: PyTorch keeps the converted parameters until it closes *)
RECURSIVE Used(_)
Used(g) == IF g = <<>> \/ Stack(g) = <<>> THEN {} ELSE Used(SubSeq(g, 1, Len(g) - 1)) \cup (IF g[Len(g)][1] = "enter" THEN {g[Len(g)][2]} \ {"off"} ELSE {})
Next == /\ Len(h) < Len0
        /\ \E a \in Acts : /\ a[1] = "enter" => Len(stack) < Depth /\ (a[2] = "off" \/ Used(h) \subseteq {a[2]})
                           /\ a[1] = "exit" => stack # <<>> /\ h[Len(h)][1] # "enter"
                           /\ a[1] = "call" => Defined(c, Eff(stack), a[2])
                           /\ h' = Append(h, a) /\ stack' = After(stack, a) /\ ans' = Append(ans, IF a[1] = "call" THEN Answer(c, stack, a[2]) ELSE <<>>)
        /\ UNCHANGED c
(* what a call answers depends on the innermost open region alone: closing it, failing in it or what was called before leaves no trace *)
Consistent == stack = Stack(h)
Calls == {k \in 1..Len(h) : h[k][1] = "call"}
Local == \A j, k \in Calls : (h[j] = h[k] /\ Eff(Stack(SubSeq(h, 1, j-1))) = Eff(Stack(SubSeq(h, 1, k-1)))) => ans[j] = ans[k]
(* answers are never of a coarser type than everything involved, nor lose more than the coarsest type involved *)
Honest == \A k \in Calls : LET s == Eff(Stack(SubSeq(h, 1, k-1))) d == h[k][2] inv == {d, c.md} \cup (IF s = "off" THEN {} ELSE {s})
                           IN /\ \E t \in inv : Rank(ans[k][1]) >= Rank(t)
                              /\ Eps(ans[k][1]) <= ans[k][2] \/ ans[k][1] = "f64"
                              /\ \E t \in inv \cup {"f32"} : ans[k][2] <= Eps(t)
Untouched == c.fam \in Immune => \A j, k \in Calls : h[j] = h[k] => ans[j] = ans[k]
Scn == (Len(h) = Len0 /\ h[Len0][1] = "call") => PrintT("SCN " \o ToJson([c |-> c, h |-> h]))
=============================================================================
