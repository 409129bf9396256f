----------------------------- MODULE SpecConvMC -----------------------------
(* The layer as a pipeline transform -> bias -> contraction -> inverse, run exhaustively on      *)
(* impulses in input coefficient and weight; prints the shape configurations that are replayed.   *)
EXTENDS SpecConv, TLC, Json
CONSTANTS HIs, WIs, HOs, WOs, Groups, Cis, Cos, Grids
VARIABLES st, pc, x
L == 2  C == 2  O == 2
Init == \/ \E g \in {1,2}, c0 \in 0..1, l0 \in 0..1, m0 \in 0..1, kl \in 0..1, ki \in 0..1, ko \in 0..1, kg \in 0..1, kv \in {<<1,0>>, <<0,1>>, <<2,-1>>}, bb \in {0,1} :
             m0 <= l0 /\ kg < g /\ ki < C \div g /\ ko < O \div g /\ st = [k |-> "law", G |-> g, c |-> c0, l |-> l0, m |-> m0, kl |-> kl, ki |-> ki, ko |-> ko, kg |-> kg, kv |-> kv, bb |-> bb] /\ pc = "in" /\ x = [t \in (0..1) \X (0..1) \X (0..1) |-> IF t = <<c0, l0, m0>> THEN <<1, 0>> ELSE <<0,0>>]
        \/ \E hi \in HIs, wi \in WIs, ho \in HOs, wo \in WOs, g \in Groups, ci \in Cis, co \in Cos, gi \in Grids, go \in Grids :
             SpecLimit(hi, wi, gi, ho, wo, go) >= 1 /\ st = [k |-> "scn", Hi |-> hi, W |-> wi, Ho |-> ho, V |-> wo, G |-> g, ci |-> ci, co |-> co, gi |-> gi, go |-> go, L |-> SpecLimit(hi, wi, gi, ho, wo, go)] /\ pc = "scn" /\ x = <<>>
K(g, i, o, l) == IF g = st.kg /\ i = st.ki /\ o = st.ko /\ l = st.kl THEN st.kv ELSE <<0,0>>
AddBias == pc = "in" /\ pc' = "biased" /\ x' = [t \in DOMAIN x |-> CAdd(x[t], IF st.c = 0 /\ st.l = 0 THEN <<st.bb * (IF t[1] = 0 THEN 1 ELSE 0), 0>> ELSE <<0,0>>)] /\ UNCHANGED st
Contract == pc = "biased" /\ pc' = "mixed" /\ x' = [t \in DOMAIN x |-> Mixed(LAMBDA c, l, m : x[<<c,l,m>>], K, C, O, st.G, t[1], t[2], t[3])] /\ UNCHANGED st
Inverse == pc = "mixed" /\ pc' = "out" /\ x' = [t \in DOMAIN x |-> Shown(x[t], t[2], t[3], 8)] /\ UNCHANGED st
Next == AddBias \/ Contract \/ Inverse \/ (pc \in {"out", "scn"} /\ UNCHANGED <<st, pc, x>>)
Zero == <<0,0>>
(* only the weight's degree, the weight's group and its output channel can be non-zero *)
Local == pc \in {"mixed", "out"} => \A t \in DOMAIN x : x[t] # Zero => t[2] = st.kl /\ t[1] = st.kg*(O \div st.G) + st.ko
(* without bias a coefficient stays at its degree and order *)
SamePlace == (pc = "out" /\ st.bb = 0) => \A t \in DOMAIN x : x[t] # Zero => t[2] = st.l /\ t[3] = st.m
Scn == pc = "scn" => PrintT("SCN " \o ToJson(st))
=============================================================================
