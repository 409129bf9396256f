-------------------------------- MODULE Ring --------------------------------
(* Ring rotation of key/value chunks over A azimuth ranks with asynchronous transfers,      *)
(* together with the longitude bookkeeping that decides which products a rank adds.         *)
(* Rank r (1..A) holds a chunk, may start its transfer while computing on it, and adopts     *)
(* the received chunk only after both its send and its receive completed.  The chunk is      *)
(* processed under the label the rank derives from its step count.                          *)
EXTENDS Partition, TLC, Json, FiniteSets
CONSTANTS ASet, WoutSet, Ratios, PSet, Lats, Modes
VARIABLES dir, na, wout, ratio, pc, held, step, chan, done
vars == <<dir, na, wout, ratio, pc, held, step, chan, done>>
(* wout: number of longitudes of the coarser grid; ratio: the integer refinement *)
NlonIn == IF dir = "up" THEN wout ELSE wout*ratio
NlonOut == IF dir = "up" THEN wout*ratio ELSE wout
Rk == 1..na
Next1(r) == IF r = na THEN 1 ELSE r + 1
Prev1(r) == IF r = 1 THEN na ELSE r - 1
(* the layer's own precondition: local refinement equals the global one on every rank *)
Uniform == \A r \in Rk : IF dir = "up" THEN ChunkSize(NlonOut, na, r) = ratio*ChunkSize(NlonIn, na, r)
                                       ELSE ChunkSize(NlonIn, na, r) = ratio*ChunkSize(NlonOut, na, r)
Init == /\ dir \in Modes /\ na \in ASet /\ wout \in WoutSet /\ ratio \in Ratios
        /\ (dir = "same") = (ratio = 1) /\ wout >= na /\ Uniform
        /\ pc = [r \in Rk |-> "post"] /\ held = [r \in Rk |-> r] /\ step = [r \in Rk |-> 0]
        /\ chan = [r \in Rk |-> <<>>] /\ done = [r \in Rk |-> <<>>]
Label(r) == ((r - 1 + step[r]) % na) + 1
Keep == UNCHANGED <<dir, na, wout, ratio>>
(* send the held chunk to the predecessor (chan[r] is the in-order channel into r), unless last step *)
Post(r) == /\ pc[r] = "post" /\ Keep /\ UNCHANGED <<held, step, done>>
           /\ chan' = IF step[r] < na - 1 THEN [chan EXCEPT ![Prev1(r)] = Append(@, held[r])] ELSE chan
           /\ pc' = [pc EXCEPT ![r] = "compute"]
Compute(r) == /\ pc[r] = "compute" /\ Keep /\ UNCHANGED <<held, step, chan>>
              /\ done' = [done EXCEPT ![r] = Append(@, <<held[r], Label(r)>>)]
              /\ pc' = [pc EXCEPT ![r] = IF step[r] < na - 1 THEN "wait" ELSE "end"]
Adopt(r) == /\ pc[r] = "wait" /\ chan[r] # <<>> /\ Keep /\ UNCHANGED done
            /\ held' = [held EXCEPT ![r] = Head(chan[r])] /\ chan' = [chan EXCEPT ![r] = Tail(@)]
            /\ step' = [step EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "post"]
Finished == \A r \in Rk : pc[r] = "end"
Next == (\E r \in Rk : Post(r) \/ Compute(r) \/ Adopt(r)) \/ (Finished /\ UNCHANGED vars)
-----------------------------------------------------------------------------
LabelTrue == \A r \in Rk : \A k \in 1..Len(done[r]) : done[r][k][1] = done[r][k][2]
OncePerChunk == \A r \in Rk : \A k, l \in 1..Len(done[r]) : k # l => done[r][k][1] # done[r][l][1]
AllAtEnd == Finished => /\ \A r \in Rk : {done[r][k][1] : k \in 1..Len(done[r])} = Rk
                        /\ \A r \in Rk : chan[r] = <<>>
(* every product of the serial attention, <<output longitude, input longitude offset>>, is added exactly once *)
Contribution(r, wo, c, w) ==   \* does rank r add input longitude w of chunk c to its local output column wo for canonical offset d?
  {d \in 0..NlonIn-1 : (d + ratio*(ChunkStart(NlonOut, na, r) + wo)) % NlonIn = ChunkStart(NlonIn, na, c) + w}
ExactlyOnce == (Finished /\ dir # "up") =>
  \A g \in 0..NlonOut-1 : \A d \in 0..NlonIn-1 :
    Cardinality({<<r, wo, c, w>> \in Rk \X (0..NlonOut-1) \X Rk \X (0..NlonIn-1) :
        /\ wo < ChunkSize(NlonOut, na, r) /\ w < ChunkSize(NlonIn, na, c)
        /\ ChunkStart(NlonOut, na, r) + wo = g /\ \E k \in 1..Len(done[r]) : done[r][k][2] = c
        /\ d \in Contribution(r, wo, c, w)}) = 1
(* scatter direction: output longitude = (canonical + ratio * input longitude) mod NlonOut *)
ExactlyOnceUp == (Finished /\ dir = "up") =>
  \A wi \in 0..NlonIn-1 : \A d \in 0..NlonOut-1 :
    Cardinality({<<r, c, w>> \in Rk \X Rk \X (0..NlonIn-1) :
        /\ w < ChunkSize(NlonIn, na, c) /\ ChunkStart(NlonIn, na, c) + w = wi
        /\ \E k \in 1..Len(done[r]) : done[r][k][2] = c
        /\ (((d - ChunkStart(NlonOut, na, r)) % NlonOut) + ratio*(ChunkStart(NlonIn, na, c) + w)) % NlonOut < ChunkSize(NlonOut, na, r)}) = 1
Scn == (\A r \in Rk : step[r] = 0 /\ pc[r] = "post") =>
   \A np \in PSet, hin \in Lats, hout \in Lats :
     (hin >= np /\ hout >= np /\ (dir = "same" => hin = hout)) =>
       PrintT("SCN " \o ToJson([dir |-> dir, np |-> np, na |-> na, win |-> NlonIn, wout |-> NlonOut, hin |-> hin, hout |-> hout]))
=============================================================================
