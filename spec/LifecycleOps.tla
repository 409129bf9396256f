---------------------------- MODULE LifecycleOps ----------------------------
(* The registration state of torch_harmonics.distributed and its transitions.              *)
(* Handles: "P" polar (NP ranks), "A" azimuth (NA ranks), "W" all ranks, "S" a single rank;  *)
(* "-" is no group.  A handle may be registered any number of times until destroyed.         *)
EXTENDS Integers, Sequences
NP == 2
NA == 3
NW == NP*NA
SizeOf(h) == CASE h = "P" -> NP [] h = "A" -> NA [] h = "W" -> NW [] OTHER -> 1
(* rank (0-based) of world rank w (0-based) in a handle *)
RankOf(h, w) == CASE h = "P" -> w \div NA [] h = "A" -> w % NA [] h = "W" -> w [] OTHER -> 0
S0 == [ini |-> FALSE, pol |-> "-", az |-> "-", dbg |-> "u", env |-> FALSE, dead |-> <<>>]
Apply(s, o) ==
  CASE o.k = "init" -> [s EXCEPT !.ini = TRUE, !.pol = o.p, !.az = o.a]
    [] o.k = "fin" -> [s EXCEPT !.ini = FALSE, !.pol = "-", !.az = "-",
                         !.dead = IF s.ini THEN @ \o (IF s.pol = "-" THEN <<>> ELSE <<s.pol>>) \o (IF s.az = "-" THEN <<>> ELSE <<s.az>>) ELSE @]
    [] o.k = "dbg" -> [s EXCEPT !.dbg = IF o.v THEN "t" ELSE "f"]
    [] o.k = "env" -> [s EXCEPT !.env = o.v]
    [] OTHER -> s
Debug(s) == IF s.dbg = "u" THEN s.env ELSE s.dbg = "t"
Live(s, h) == h = "-" \/ \A x \in 1..Len(s.dead) : s.dead[x] # h
RECURSIVE StateAfter(_, _)
StateAfter(h, k) == IF k = 0 THEN S0 ELSE Apply(StateAfter(h, k-1), h[k])
=============================================================================
