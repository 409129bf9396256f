----------------------------- MODULE ResampleMC -----------------------------
(* Laws of the definition on all small equiangular pairs, exhaustively over impulses:           *)
(* coincidence, constants, linearity in latitude, convexity, periodic wrap, refinement followed   *)
(* by coarsening is the identity, and agreement of the exact and the fixed-point definition.       *)
EXTENDS Resample, TLC, Json
CONSTANTS Hs, Ws, His, Wis, Hos, Vos
VARIABLES st
Init == \/ \E a \in Hs, b \in Hs, w \in Ws, v \in Ws, i \in 0..4, j \in 0..3 : i < a /\ j < w /\ st = [k |-> "law", Hi |-> a, Ho |-> b, W |-> w, V |-> v, i |-> i, j |-> j]
        \/ \E a \in His, b \in Hos, w \in Wis, v \in Vos : st = [k |-> "scn", Hi |-> a, Ho |-> b, W |-> w, V |-> v]
Next == UNCHANGED st
Imp(H, W, i, j, v) == [a \in 1..H |-> [b \in 1..W |-> IF a = i+1 /\ b = j+1 THEN v ELSE 0]]
Const(H, W) == [a \in 1..H |-> [b \in 1..W |-> 1]]
LinLat(H, W) == [a \in 1..H |-> [b \in 1..W |-> a-1]]
Rot(x, s) == [a \in 1..Len(x) |-> [b \in 1..Len(x[1]) |-> x[a][((b-1-s) % Len(x[1]))+1]]]
Th(H) == [a \in 1..H |-> ((a-1)*3141593) \div (H-1)]
Law == st.k = "law" =>
  LET x == Imp(st.Hi, st.W, st.i, st.j, 1)  D == (st.Ho-1)*st.V
      E(y, i, j) == EquiNum(y, st.Ho, st.V, i, j)
      fx == Resampled(Imp(st.Hi, st.W, st.i, st.j, 1000), Th(st.Hi), Th(st.Ho), st.V) IN
  \A i \in 0..st.Ho-1, j \in 0..st.V-1 :
    /\ E(x, i, j) \in 0..D
    /\ E(Const(st.Hi, st.W), i, j) = D
    /\ E(LinLat(st.Hi, st.W), i, j) * (st.Ho-1) = D * i * (st.Hi-1)
    /\ ((i*(st.Hi-1)) % (st.Ho-1) = 0 /\ (j*st.W) % st.V = 0) => E(x, i, j) = D * x[((i*(st.Hi-1)) \div (st.Ho-1)) + 1][((j*st.W) \div st.V) + 1]
    /\ (st.V % st.W = 0) => E(Rot(x, 1), i, j) = E(x, i, (j - (st.V \div st.W)) % st.V)
    /\ Abs(fx[i+1][j+1]*D - 1000*E(x, i, j)) <= 4*D
Refine == st.k = "law" /\ (st.Ho-1) % (st.Hi-1) = 0 /\ st.V % st.W = 0 =>
  LET x == Imp(st.Hi, st.W, st.i, st.j, 1)
      up == [i \in 1..st.Ho |-> [j \in 1..st.V |-> EquiNum(x, st.Ho, st.V, i-1, j-1)]]
      D == (st.Ho-1)*st.V IN
  \A i \in 0..st.Hi-1, j \in 0..st.W-1 : EquiNum(up, st.Hi, st.W, i, j) = D * ((st.Hi-1)*st.W) * x[i+1][j+1]
Scn == st.k = "scn" => PrintT("SCN " \o ToJson(st))
=============================================================================
