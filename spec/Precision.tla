----------------------------- MODULE Precision -----------------------------
(* Which number type a layer computes and answers in.  The caller opens and closes regions of automatic mixed precision ("off" closes an  *)
(* outer region for a while); the layer has parameters of type c.md and gets fields of type d.  Types are ordered by what they can hold;   *)
(* the two 16-bit types are incomparable and meet in f32.                                                                                  *)
EXTENDS Integers, Sequences
Low == {"f16", "bf16"}
Types == Low \cup {"f32", "f64"}
Rank(t) == CASE t = "f64" -> 3 [] t = "f32" -> 2 [] OTHER -> 1
Join(a, b) == IF a = b THEN a ELSE IF a \in Low /\ b \in Low THEN "f32" ELSE IF Rank(a) >= Rank(b) THEN a ELSE b
(* spacing of a type at one, in units of 2^-24 (the unit of all measured errors); f64 is below the unit *)
Eps(t) == CASE t = "f64" -> 1 [] t = "f32" -> 2 [] t = "f16" -> 16384 [] OTHER -> 131072
Max(a, b) == IF a >= b THEN a ELSE b
Eff(stack) == IF stack = <<>> THEN "off" ELSE stack[Len(stack)]
Conv == {"conv", "convt"}
Att == {"natt", "att"}
Trans == {"sht", "isht", "vsht", "ivsht"}
Fams == Conv \cup Att \cup Trans \cup {"res", "quad", "spc"}
(* layers that mixed precision never touches *)
Immune == {"res", "quad", "spc"}
(* inside a region no value is of the other 16-bit type: PyTorch's own promotion refuses to mix them *)
Mixed(c, ac, d) == ac # "off" /\ ({d, c.md} \cap Low) \ {ac} # {}
(* calls with a defined answer: without mixed precision parameters and fields of mixing layers agree in type; with it fields may be of any type up to f32 *)
Defined(c, ac, d) ==
  CASE Mixed(c, ac, d) -> FALSE
    [] c.fam \in Conv \cup Att -> IF ac = "off" THEN d = c.md /\ d # "f16" ELSE c.md \in {"f32", "bf16"} /\ d # "f64"
    [] c.fam \in Trans -> ac = "off" /\ d \in {"f32", "f64"}
    [] c.fam = "spc" -> c.md = "f32"
    [] OTHER -> TRUE
OutType(c, ac, d) ==
  CASE c.fam \in Conv -> IF ac = "off" THEN d ELSE IF c.bias THEN Join(ac, c.md) ELSE ac
    [] c.fam \in Att -> IF ac = "off" THEN d ELSE ac
    [] c.fam = "quad" -> Join(d, c.md)
    [] OTHER -> d
(* the reference form of the transposed convolution contracts with its full-precision filter last, so its type is not fixed by the region *)
Allowed(c, ac, d) == IF c.fam = "convt" /\ ~c.opt /\ ac # "off" THEN {ac, d, c.md, "f32"} ELSE {OutType(c, ac, d)}
(* the coarsest type that rounds anything on the way: what the answer may lose *)
Loses(c, ac, d) == LET b == Max(Eps(d), Eps("f32"))
                   IN IF ac = "off" \/ c.fam \in Immune THEN (IF c.fam \in {"quad", "res"} THEN Max(b, Eps(c.md)) ELSE b) ELSE Max(b, Max(Eps(ac), Eps(c.md)))
(* a call: <<type of the answer, what it may lose>> *)
Answer(c, stack, d) == IF Defined(c, Eff(stack), d) THEN <<OutType(c, Eff(stack), d), Loses(c, Eff(stack), d), Allowed(c, Eff(stack), d)>> ELSE <<"open">>
(* one step of a history: the stack of open regions afterwards *)
After(stack, a) == CASE a[1] = "enter" -> Append(stack, a[2]) [] a[1] = "exit" -> SubSeq(stack, 1, Len(stack) - 1) [] OTHER -> stack
RECURSIVE Stack(_)
Stack(h) == IF h = <<>> THEN <<>> ELSE After(Stack(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
=============================================================================
