------------------------------- MODULE AttnMC -------------------------------
(* Exhaustive laws of the definitions on small instances: probabilities of a constant value    *)
(* reproduce it, a common shift of the logits changes nothing, outputs are convex              *)
(* combinations, logit gradients sum to zero, gather and scatter patterns describe the same     *)
(* neighbourhoods, rotation by one coarse step commutes.  Prints the replayed shapes.            *)
EXTENDS Attn, TLC, Json
CONSTANTS HIs, HOs, Coarse, Ratios, Ups, Pats, Heads
VARIABLES st
(* one head, one channel, Hi=1 or 2 input rows *)
Rec(P, W, V, q, k, v, w, gy) == [P |-> P, W |-> W, V |-> V, Hi |-> 2, Ho |-> 1, nh |-> 1, dk |-> 2, dv |-> 1, q |-> q, k |-> k, v |-> v, w |-> w, gy |-> gy, B |-> 1]
Init == \/ \E W \in {1,2} : \E S \in SUBSET ({0,1} \X (0..W-1)) : \E q0 \in {-1,2}, sh \in {3} : \E kk \in [1..2*W -> {0,1}], vv \in [1..2*W -> {0,2}], w \in [1..2 -> {1,3}] :
             S # {} /\ st = [kd |-> "law", W |-> W, S |-> S, q0 |-> q0, sh |-> sh, kk |-> kk, vv |-> vv, w |-> w]
        \/ \E V \in {1,2,3} : \E p \in {1,2,3} : \E S \in SUBSET ({0,1} \X (0..V-1)) : st = [kd |-> "dual", V |-> V, p |-> p, S |-> S]
        \/ \E hi \in HIs, ho \in HOs, c \in Coarse, p \in Ratios, u \in Ups, pat \in Pats, nh \in Heads :
             (u => p > 1) /\ st = [kd |-> "scn", Hi |-> hi, Ho |-> ho, W |-> IF u THEN c ELSE c*p, V |-> IF u THEN c*p ELSE c, pat |-> pat, nh |-> nh]
Next == UNCHANGED st
Law == st.kd = "law" =>
  LET W == st.W  SP == SetToSeq(st.S)
      P == [i \in 1..Len(SP) |-> <<0, SP[i][1], SP[i][2]>>]
      q(s) == [n \in 1..2*W |-> IF n <= W THEN st.q0 ELSE s]
      k == [n \in 1..4*W |-> IF n <= 2*W THEN st.kk[n] ELSE 1]
      gy == [n \in 1..W |-> 1]
      r0 == Rec(P, W, W, q(0), k, st.vv, st.w, gy)
      r1 == Rec(P, W, W, q(st.sh), k, st.vv, st.w, gy)
      T0 == Point(r0, 0, 0, 0, 0)  T1 == Point(r1, 0, 0, 0, 0)
      Tr == Point(r0, 0, 0, 0, W-1)
      D == DL(T0, GV(r0, T0, 0, 0, 0, 0)) IN
  /\ T0.a = T1.a
  /\ SumN(Len(T0.n), LAMBDA i : D[i]) = 0
  /\ Out(r0, T0, 0, 0, 3) \in 0..2000
  /\ Cardinality({T0.n[i] : i \in 1..Len(T0.n)}) = Len(T0.n)
  /\ Len(Tr.n) = Len(T0.n)
  /\ FixDiv(T0.den * 2, T0.den, 4) = 20000
(* a scatter pattern from one input row and the gather pattern it is equivalent to: same pairs *)
Dual == st.kd = "dual" =>
  LET V == st.V * st.p  W == st.V
      SP == SetToSeq(st.S)
      up == [i \in 1..Len(SP) |-> <<SP[i][1], 0, SP[i][2]>>]
      pairs == {<<x[1], x[2], j>> : x \in {0,1} \X (0..W-1), j \in 0..V-1}
      rel == {t \in pairs : <<t[1], t[2]>> \in Nbrs(up, W, V, 0, t[3])}
      def == {t \in pairs : <<t[1], (t[3] - st.p*t[2]) % V>> \in st.S} IN
  IF st.p = 1 THEN TRUE ELSE rel = def /\ Cardinality(rel) = Len(SP)*W
Scn == st.kd = "scn" => PrintT("SCN " \o ToJson(st))
=============================================================================
