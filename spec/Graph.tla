------------------------------- MODULE Graph -------------------------------
(* A layer behind a graph compiler.  The compiler keeps graphs, each with a guard over call signatures;  *)
(* a call runs the first graph whose guard admits it, and a new graph is traced when there is none.       *)
(* Parameters are read when a graph runs, never when it is traced.  What a call returns must be a          *)
(* function of the parameters and inputs of that call alone, whichever graph serves it.                     *)
EXTENDS Integers, Sequences, FiniteSets
(* signature: [b batch size, l layout, g gradients recorded]; guard: a signature with batch 0 = any batch above one *)
Sig(c) == [b |-> c[2], l |-> c[3], g |-> c[4]]
Admits(gd, s) == gd.l = s.l /\ gd.g = s.g /\ (gd.b = s.b \/ (gd.b = 0 /\ s.b > 1))
(* guard of a graph newly traced for s: static keeps the batch size; dynamic never fixes one above 1; auto fixes the first one it sees *)
NewGuard(kind, graphs, s) ==
  LET seen == {k \in 1..Len(graphs) : graphs[k].l = s.l /\ graphs[k].g = s.g}
      free == s.b > 1 /\ (kind = "dynamic" \/ (kind = "auto" /\ seen # {}))
  IN [s EXCEPT !.b = IF free THEN 0 ELSE s.b]
Start == [graphs |-> <<>>, ver |-> 1]
Serving(st, s) == {k \in 1..Len(st.graphs) : Admits(st.graphs[k], s)}
(* actions: <<"call", batch, layout, grad>>, <<"upd", version>>, <<"reset">>, <<"mode">>, <<"other">> (the plain layer is called in between) *)
Step(kind, st, a) ==
  CASE a[1] = "call" -> LET s == Sig(a) IN
          [st |-> IF Serving(st, s) # {} THEN st ELSE [st EXCEPT !.graphs = Append(@, NewGuard(kind, @, s))], out |-> <<st.ver, s.b, s.g>>, hit |-> Serving(st, s) # {}]
    [] a[1] = "upd" -> [st |-> [st EXCEPT !.ver = a[2]], out |-> <<>>, hit |-> FALSE]
    [] a[1] = "reset" -> [st |-> [st EXCEPT !.graphs = <<>>], out |-> <<>>, hit |-> FALSE]
    [] OTHER -> [st |-> st, out |-> <<>>, hit |-> FALSE]
RECURSIVE Run(_, _, _, _, _)
Run(kind, acts, k, st, o) == IF k > Len(acts) THEN o ELSE LET r == Step(kind, st, acts[k]) IN Run(kind, acts, k+1, r.st, Append(o, r.out))
Outs(kind, acts) == Run(kind, acts, 1, Start, <<>>)
=============================================================================
