------------------------------ MODULE GraphMC ------------------------------
EXTENDS Graph, TLC, Json
CONSTANTS Len0
VARIABLES kind, h, st, hits
Kinds == {"static", "dynamic", "auto"}
Calls == {<<"call", b, l, g>> : b \in {1, 2, 3}, l \in {"c", "p"}, g \in {0, 1}}
Others == {<<"upd", 1>>, <<"upd", 2>>, <<"reset">>, <<"mode">>, <<"other">>}
Init == kind \in Kinds /\ h = <<>> /\ st = Start /\ hits = 0
Next == /\ Len(h) < Len0
        /\ \E a \in Calls \cup Others :
             /\ a[1] = "upd" => a[2] # st.ver
             /\ a[1] = "reset" => st.graphs # <<>>
             /\ LET r == Step(kind, st, a) IN st' = r.st /\ hits' = hits + (IF r.hit THEN 1 ELSE 0)
             /\ h' = Append(h, a) /\ UNCHANGED kind
(* after a call some graph serves its signature again; guards of distinct graphs never both fix the same signature *)
Served == \A k \in 1..Len(h) : (h[k][1] = "call" /\ \A j \in k+1..Len(h) : h[j][1] # "reset") => Serving(st, Sig(h[k])) # {}
(* what calls return does not depend on the compiler's strategy, nor on resets, mode switches and calls of other objects *)
Neutral == /\ \A k2 \in Kinds : Outs(kind, h) = Outs(k2, h)
           /\ \A k \in 1..Len(h) : h[k][1] \notin {"upd"} =>
                LET g == SubSeq(h, 1, k-1) \o SubSeq(h, k+1, Len(h)) IN \A j \in 1..Len(g) : Outs(kind, g)[j] = Outs(kind, h)[IF j < k THEN j ELSE j+1]
(* the automatic strategy traces at most two graphs per layout and gradient mode besides batch one *)
Bounded == kind # "static" => \A l \in {"c", "p"}, g \in {0, 1} : Cardinality({k \in 1..Len(st.graphs) : st.graphs[k].l = l /\ st.graphs[k].g = g}) <= 3
Scn == (Len(h) = Len0 /\ h[1][1] \in {"call", "upd", "mode"} /\ h[Len0][1] = "call" /\ Cardinality({k \in 1..Len0 : h[k][1] = "call"}) >= 2)
         => PrintT("SCN " \o ToJson([kind |-> kind, h |-> h, hits |-> hits, n |-> Len(st.graphs)]))
=============================================================================
