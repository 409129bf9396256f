------------------------------- MODULE DiscoMC -------------------------------
(* Exhaustive check of the definitions on small filters: the two directions are adjoint, the  *)
(* operator commutes with rotations by one coarse step, and each entry is used once per        *)
(* coarse longitude.  Also prints the shape configurations that are replayed.                   *)
EXTENDS Disco, TLC, Json
CONSTANTS Rows, Lats, Vs, Ps, Ks, Groups, Pats
VARIABLES st
Entry(K, R, H, W) == {<<k, r, h, w, v>> : k \in 0..K-1, r \in 0..R-1, h \in 0..H-1, w \in 0..W-1, v \in {1, -2}}
Init == \/ \E p \in {1,2}, V \in {1,2} : LET W == p*V IN \E e \in Entry(1,2,2,W), f \in Entry(1,2,2,W) : \E i \in 0..(2*W-1), a \in 0..(2*V-1) :
             st = [k |-> "law", W |-> W, V |-> V, P |-> <<e, f>>, ix |-> i, iy |-> a]
        \/ \E R \in Rows, H \in Lats, V \in Vs, p \in Ps, K \in Ks, g \in Groups, pat \in Pats :
             st = [k |-> "scn", R |-> R, H |-> H, V |-> V, W |-> p*V, K |-> K, G |-> g, pat |-> pat]
Next == UNCHANGED st
Imp(n, i) == [j \in 1..n |-> IF j = i+1 THEN 1 ELSE 0]
Rot(x, H, W, s) == [n \in 1..H*W |-> x[((n-1) \div W)*W + ((((n-1) % W) - s) % W) + 1]]
Law == st.k = "law" =>
  LET x == Imp(2*st.W, st.ix)  y == Imp(2*st.V, st.iy)  p == st.W \div st.V
      z == Expand(st.P, x, 1, 1, 2, st.W, 1, 2, st.V)
      t == TransOut(st.P, y, <<1>>, <<0>>, 1, 1, 2, st.V, 1, 2, st.W, 1, 1)
      zr == Expand(st.P, Rot(x, 2, st.W, p), 1, 1, 2, st.W, 1, 2, st.V) IN
  /\ z[st.iy+1] = t[st.ix+1]
  /\ zr = Rot(z, 2, st.V, 1)
Scn == st.k = "scn" => PrintT("SCN " \o ToJson(st))
=============================================================================
