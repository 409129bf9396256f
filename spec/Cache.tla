------------------------------- MODULE Cache -------------------------------
(* Cached precomputation.  Argument objects hold values; a call stores its result under a key and   *)
(* hands an object to the caller, who may modify it, keep it or drop it, and may modify the argument *)
(* objects.  Implementation machine: LRU store of capacity Cap, returning copies (Copy) or the stored *)
(* cell itself, keyed by argument values (ByValue) or by the identity of the argument object.        *)
EXTENDS Integers, Sequences
CONSTANTS Args, Vals, Cap, Copy, ByValue
(* ---- what a user may rely on: expected content of every handle along a history ---- *)
(* state: val: argument -> value, exp: handles -> expected content (0: modified by the user, -1: dropped) *)
Start == [val |-> [a \in Args |-> a], exp |-> <<>>]
Spec1(s, act) ==
  CASE act[1] = "call" -> [s EXCEPT !.exp = Append(@, s.val[act[2]])]
    [] act[1] = "mut"  -> [s EXCEPT !.exp[act[2]] = 0]
    [] act[1] = "drop" -> [s EXCEPT !.exp[act[2]] = -1]
    [] act[1] = "arg"  -> [s EXCEPT !.val[act[2]] = act[3]]
    [] OTHER -> s
RECURSIVE After(_, _, _)
After(s, acts, k) == IF k > Len(acts) THEN s ELSE After(Spec1(s, acts[k]), acts, k+1)
ExpAfter(acts) == After(Start, acts, 1).exp
(* ---- the caching implementation ---- *)
(* m: store: sequence of <<key, cell>> most recent first; heap: cell -> content; hnd: handle -> cell *)
MStart == [val |-> [a \in Args |-> a], store |-> <<>>, heap |-> <<>>, hnd |-> <<>>]
KeyOf(m, a) == IF ByValue THEN <<"v", m.val[a]>> ELSE <<"o", a>>
Find(st, key) == {k \in 1..Len(st) : st[k][1] = key}
Front(st, k) == <<st[k]>> \o SubSeq(st, 1, k-1) \o SubSeq(st, k+1, Len(st))
Give(m, cell) == IF Copy THEN [m EXCEPT !.heap = Append(@, m.heap[cell]), !.hnd = Append(@, Len(m.heap)+1)] ELSE [m EXCEPT !.hnd = Append(@, cell)]
MCall(m, a) ==
  LET key == KeyOf(m, a)
      hit == Find(m.store, key)
  IN IF hit # {} THEN LET k == CHOOSE x \in hit : TRUE IN Give([m EXCEPT !.store = Front(@, k)], m.store[k][2])
     ELSE LET c == Len(m.heap) + 1
              st == <<<<key, c>>>> \o m.store
          IN Give([m EXCEPT !.heap = Append(@, m.val[a]), !.store = SubSeq(st, 1, IF Len(st) > Cap THEN Cap ELSE Len(st))], c)
MStep(m, act) ==
  CASE act[1] = "call" -> MCall(m, act[2])
    [] act[1] = "mut"  -> [m EXCEPT !.heap[m.hnd[act[2]]] = 0]
    [] act[1] = "arg"  -> [m EXCEPT !.val[act[2]] = act[3]]
    [] act[1] = "flood" -> [m EXCEPT !.store = <<>>]
    [] OTHER -> m
Content(m, k) == m.heap[m.hnd[k]]
=============================================================================
