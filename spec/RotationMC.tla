----------------------------- MODULE RotationMC -----------------------------
EXTENDS Rotation, TLC, Json
CONSTANTS Ops, Ns
VARIABLES op, ni, no, si, so
vars == <<op, ni, no, si, so>>
Init == op \in Ops /\ ni \in Ns /\ no \in Ns /\ Admits(op, ni, no) /\ si = 0 /\ so = 0
(* the group of common rotations is generated by one step pair *)
Next == UNCHANGED <<op, ni, no>> /\ \E a \in 1..ni : \E b \in 1..no : Corr(ni, no, a, b) /\ (\A c \in 1..a-1 : ~ \E d \in 1..no : Corr(ni, no, c, d)) /\ si' = (si + a) % ni /\ so' = (so + b) % no
(* corresponding steps stay corresponding modulo whole turns, and a phase is the same angle on both grids *)
Consistent == \E t \in {0, 1} : (si * no - so * ni) % (ni * no) = 0
PhasesAgree == \A m \in 0..6 : (m * si * no - m * so * ni) % (ni * no) = 0
Scn == (si # 0) => PrintT("SCN " \o ToJson([op |-> op, ni |-> ni, no |-> no, si |-> si, so |-> so]))
=============================================================================
