------------------------------- MODULE Purity -------------------------------
(* Layers as state machines.  The only state a user may observe is the parameter version of each      *)
(* module handle; everything else (mode, earlier inputs, precision excursions, failed calls, copies,   *)
(* modified outputs) must leave no trace.                                                               *)
EXTENDS Integers, Sequences
MaxH == 2
(* ps: handle -> <<parameter version, 1 if the handle went through a lower precision (its constant tables are rounded), else 0>> *)
Start == << <<1, 0>> >>
(* actions: <<name, handle, argument>> *)
Step(ps, a) ==
  CASE a[1] = "upd" -> [ps |-> [ps EXCEPT ![a[2]] = <<a[3], @[2]>>], out |-> <<>>]
    [] a[1] \in {"copy", "pickle"} -> [ps |-> Append(ps, ps[a[2]]), out |-> <<>>]
    [] a[1] = "save" -> [ps |-> Append(ps, <<ps[a[2]][1], 0>>), out |-> <<>>]  \* loaded into a new module: only the parameters travel
    [] a[1] = "cast" -> [ps |-> [ps EXCEPT ![a[2]] = <<@[1], 1>>], out |-> <<>>]
    [] a[1] \in {"fwd", "bwd", "lay", "bat", "ng"} -> [ps |-> ps, out |-> <<a[1], ps[a[2]][1], a[3]>>]
    [] a[1] = "wide" -> [ps |-> ps, out |-> <<a[1], ps[a[2]][1], a[3], ps[a[2]][2]>>]  \* input of higher precision
    [] OTHER -> [ps |-> ps, out |-> <<>>]
RECURSIVE Run(_, _, _, _)
Run(acts, k, ps, o) == IF k > Len(acts) THEN o ELSE LET s == Step(ps, acts[k]) IN Run(acts, k+1, s.ps, Append(o, s.out))
Outs(acts) == Run(acts, 1, Start, <<>>)
=============================================================================
