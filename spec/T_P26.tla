------------------------------- MODULE T_P26 -------------------------------
EXTENDS TraceLib
M == INSTANCE Solver
Failed(r) == IF ~r.ok THEN {"NoException"} ELSE
  IF r.op = "steps" THEN
    Req("Scheme", \E a \in {18, 28} : r.got = <<M!Final(1, a, r.u0, r.h), M!Final(r.D, a, r.u0, r.h), M!Final(r.D, a, r.u0, r.h)>>)
       \cup Req("InputKept", r.kept)
  ELSE UNION {Req(c.n, c.v <= 1) : c \in {r.cl[k] : k \in 1..Len(r.cl)}} \cup Req("InputKept", r.kept)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
