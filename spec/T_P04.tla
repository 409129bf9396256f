------------------------------- MODULE T_P04 -------------------------------
EXTENDS TraceLib, Tensors
(* r: np, na, B, C, W, hgt, rl, obs per rank: pad, grad, prev, next                       *)
(* input element (b,c,global row,w) of azimuth column a carries                            *)
(*   1 + a + 5*(w + W*(row + H*(c + C*b))) ; padded gradient of rank rk: 1 + rk + 3*flat   *)
Hof(r) == SumSeq(r.hgt)
St(r, p) == SumSeq(SubSeq(r.hgt, 1, p-1))
XV(r, a, b, c, row, w) == 1 + (a-1) + 5*(w + r.W*(row + Hof(r)*(c + r.C*b)))
RECURSIVE GSum(_, _, _, _, _, _, _)
(* gradient contributions for global row g (0-based) from ranks q..1 of column a *)
GSum(r, a, b, c, g, w, q) ==
  IF q = 0 THEN 0 ELSE
   LET j == g - St(r, q) + r.rl      \* position of row g in q's padded block
       hp == r.hgt[q] + 2*r.rl
       rk == (q-1)*r.na + (a-1)
   IN (IF j >= 0 /\ j < hp THEN 1 + rk + 3*(w + r.W*(j + hp*(c + r.C*b))) ELSE 0) + GSum(r, a, b, c, g, w, q-1)
FailedRank(r, p, a) ==
  LET o == r.obs[(p-1)*r.na + a]
      hp == r.hgt[p] + 2*r.rl
      psh == <<r.B, r.C, hp, r.W>>
      xsh == <<r.B, r.C, r.hgt[p], r.W>>
      pst == Strides(psh)
      xst == Strides(xsh)
      cyc(x) == ((x-1) % r.np) + 1
  IN Req("PaddedShape", o.pad.sh = psh)
     \cup Req("PaddedRows", o.pad.v = [k \in 1..ProdSeq(psh) |->
             LET ix == Unflat(k-1, psh, pst)
                 row == St(r, p) - r.rl + ix[3]
             IN IF row >= 0 /\ row < Hof(r) THEN XV(r, a, ix[1], ix[2], row, ix[4]) ELSE 0])
     \cup Req("GradShape", o.grad.sh = xsh)
     \cup Req("GradAdjoint", o.grad.v = [k \in 1..ProdSeq(xsh) |->
             LET ix == Unflat(k-1, xsh, xst) IN GSum(r, a, ix[1], ix[2], St(r, p) + ix[3], ix[4], r.np)])
     \cup Req("Neighbours", o.prev = (cyc(p-1+r.np) - 1)*r.na + a - 1 /\ o.next = (cyc(p+1) - 1)*r.na + a - 1)
     \cup Req("AzNeighbours", o.aprev = (p-1)*r.na + ((a-2+r.na) % r.na) /\ o.anext = (p-1)*r.na + (a % r.na))
     \cup Req("InputUnchanged", o.kept) \cup Req("DtypeKept", o.dtypeok)
Failed(r) == UNION {FailedRank(r, p, a) : p \in 1..r.np, a \in 1..r.na} \cup Req("NoCommFault", r.faults = <<>>)
Inv == Verdict(Recs[i], Failed(Recs[i]))
=============================================================================
