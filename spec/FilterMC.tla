------------------------------ MODULE FilterMC ------------------------------
(* Laws of the bases and the exhaustive list of filter configurations that is replayed.       *)
EXTENDS Filter, TLC, Json
CONSTANTS Shapes, Types, Hs, Rs, Ws, Ratios, Modes, Ops, Cuts
VARIABLES st
Legal(t, k0, k1) == CASE t = "piecewise linear" -> k0*k1 > 1 /\ (k1 > 1 => k0 > 1) [] t \in {"harmonic", "morlet"} -> TRUE
                      [] t = "zernike" -> k1 = 1 [] t = "fourier-bessel" -> k0 <= 5 /\ k1 <= 6
Init == \E t \in Types, sh \in Shapes : Legal(t, sh[1], sh[2]) /\
  ( \/ st = [k |-> "law", t |-> t, k0 |-> sh[1], k1 |-> sh[2]]
    \/ \E H \in Hs, R \in Rs, V \in Ws, p \in Ratios, mode \in Modes, op \in Ops, c \in Cuts :
         st = [k |-> "scn", t |-> t, k0 |-> sh[1], k1 |-> sh[2], H |-> H, R |-> R, V |-> V, W |-> p*V, mode |-> mode, op |-> op, cut |-> c] )
Next == UNCHANGED st
B == Basis(st.t, st.k0, st.k1)
Count == st.k = "law" => Len(B) = Size(st.t, st.k0, st.k1)
Distinct == st.k = "law" => \A a, b \in 1..Len(B) : a # b => B[a] # B[b]
Ordered == (st.k = "law" /\ st.t = "fourier-bessel") => \A a \in 1..Len(B)-1 : ~FBless(B[a+1], B[a])
(* piecewise linear functions sum to one up to the outermost ring and vanish at the cutoff     *)
RECURSIVE SumPL(_,_,_,_)
SumPL(k, cm, h, w) == IF k = 0 THEN 0 ELSE PLval(st.k0, st.k1, cm, 12, B[k], h, w) + SumPL(k-1, cm, h, w)
Unity == (st.k = "law" /\ st.t = "piecewise linear") => \A cm \in {2, 5}, h \in 0..5, w \in 0..11 :
   LET nr == st.k0 IN
   /\ (2000*h*(nr+1) <= 2002*cm*(nr-1) /\ ((nr % 2 = 0 /\ st.k1 = 1) => 2000*h*(nr+1) >= 2002*cm)) => Abs(SumPL(Len(B), cm, h, w) - PLden(cm, 12)) <= Len(B)
   /\ ~Inside(cm, h) => SumPL(Len(B), cm, h, w) = 0
Scn == st.k = "scn" => PrintT("SCN " \o ToJson(st))
Desc == st.k = "law" => PrintT("DESC " \o ToJson([t |-> st.t, k0 |-> st.k0, k1 |-> st.k1, B |-> B, iso |-> [k \in 1..Len(B) |-> Iso(st.t, B[k])]]))
=============================================================================
