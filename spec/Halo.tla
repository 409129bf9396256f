-------------------------------- MODULE Halo --------------------------------
(* Latitude halo exchange among P polar ranks with local heights hgt and halo width rl:  *)
(* each rank posts sends/receives to its neighbours, messages are matched in any order,   *)
(* and a rank finishes when its own messages are done.  Then the same for gradients.      *)
EXTENDS Partition, FiniteSets, TLC, Json
CONSTANTS MaxP, MaxH
VARIABLES P, hgt, rl, phase, posted, arrived, pad, dx
vars == <<P, hgt, rl, phase, posted, arrived, pad, dx>>
Rks == 1..P
Start(r) == SumSeq(SubSeq(hgt, 1, r-1))
H == SumSeq(hgt)
(* global row ids 1..H; 0 is a zero row *)
Own(r) == [j \in 1..hgt[r] |-> Start(r) + j]
Top(r) == SubSeq(Own(r), 1, rl)
Bot(r) == SubSeq(Own(r), hgt[r]-rl+1, hgt[r])
Zeros == [j \in 1..rl |-> 0]
Links == {<<r, q>> \in Rks \X Rks : q = r+1 \/ q = r-1}
Payload(r, q) == IF q = r-1 THEN Top(r) ELSE Bot(r)
Init == /\ P \in 1..MaxP /\ hgt \in [1..P -> 1..MaxH] /\ rl \in 0..MaxH /\ \A r \in 1..P : rl <= hgt[r]
        /\ phase = "fwd" /\ posted = {} /\ arrived = <<>> /\ pad = <<>> /\ dx = <<>>
Post(r) == phase \in {"fwd", "bwd"} /\ r \notin posted /\ posted' = posted \cup {r} /\ UNCHANGED <<P, hgt, rl, phase, arrived, pad, dx>>
(* a message can move once both ends have posted *)
Deliver(r, q) == /\ phase \in {"fwd", "bwd"} /\ {r, q} \subseteq posted /\ <<r, q>> \in Links /\ <<r, q>> \notin DOMAIN arrived
                 /\ arrived' = [l \in DOMAIN arrived \cup {<<r, q>>} |-> IF l = <<r, q>> THEN
                        (IF phase = "fwd" THEN Payload(r, q)
                         ELSE (IF q = r-1 THEN SubSeq(dx[r], 1, rl) ELSE SubSeq(dx[r], rl+hgt[r]+1, hgt[r]+2*rl))) ELSE arrived[l]]
                 /\ UNCHANGED <<P, hgt, rl, phase, posted, pad, dx>>
(* dx during "bwd" holds the incoming padded gradients; contribution of rank r, position j *)
DV(r, j) == 10*j + r
Finish == /\ phase \in {"fwd", "bwd"} /\ posted = Rks /\ DOMAIN arrived = Links
          /\ IF phase = "fwd"
             THEN /\ pad' = [r \in Rks |-> (IF r > 1 THEN arrived[<<r-1, r>>] ELSE Zeros) \o Own(r) \o (IF r < P THEN arrived[<<r+1, r>>] ELSE Zeros)]
                  /\ dx' = [r \in Rks |-> [j \in 1..(hgt[r]+2*rl) |-> DV(r, j)]]
                  /\ phase' = "bwd" /\ posted' = {} /\ arrived' = <<>>
             ELSE /\ dx' = [r \in Rks |-> [j \in 1..hgt[r] |-> dx[r][rl+j]
                               + (IF r > 1 /\ j <= rl THEN arrived[<<r-1, r>>][j] ELSE 0)
                               + (IF r < P /\ j > hgt[r]-rl THEN arrived[<<r+1, r>>][j-(hgt[r]-rl)] ELSE 0)]]
                  /\ phase' = "done" /\ UNCHANGED <<posted, arrived, pad>>
          /\ UNCHANGED <<P, hgt, rl>>
Next == \/ \E r \in Rks : Post(r)
        \/ \E l \in Links : Deliver(l[1], l[2])
        \/ Finish
(* declarative meaning *)
RowAt(r, j) == LET g == Start(r) - rl + j IN g     \* global row wanted at padded position j
InReach(r, g) == g >= 1 /\ g <= H
Padded == phase # "fwd" => \A r \in Rks : Len(pad[r]) = hgt[r] + 2*rl /\
             \A j \in 1..Len(pad[r]) : pad[r][j] = (IF InReach(r, RowAt(r, j)) THEN RowAt(r, j) ELSE 0)
RECURSIVE Contrib(_, _, _)
Contrib(g, r, j) == IF r = 0 THEN 0
   ELSE IF j = 0 THEN Contrib(g, r-1, IF r = 1 THEN 0 ELSE hgt[r-1]+2*rl)
   ELSE (IF pad[r][j] = g THEN DV(r, j) ELSE 0) + Contrib(g, r, j-1)
AdjointSum == phase = "done" => \A r \in Rks : \A j \in 1..hgt[r] : dx[r][j] = Contrib(Start(r)+j, P, hgt[P]+2*rl)
NoStuck == phase = "done" \/ ENABLED Next
Scn == phase = "done" => PrintT("SCN " \o ToJson([P |-> P, hgt |-> hgt, rl |-> rl]))
=============================================================================
