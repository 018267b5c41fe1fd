------------------------------ MODULE Skeleton ------------------------------
(***************************************************************************)
(* What of a sample may show in the generated program: its skeleton. Two   *)
(* samples have the same skeleton if the one is the other with strings     *)
(* replaced by strings, truth values by truth values, 64-bit integers by   *)
(* such integers and other numbers by other numbers, and with more         *)
(* elements in lists that are longer than any tuple and whose elements all *)
(* have one skeleton. (Where they differ, the order of the members that    *)
(* are merged may depend on the order of the elements.)                    *)
(***************************************************************************)
EXTENDS Pointers

RECURSIVE Same(_, _)
Alike(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])
\* both are long, and all of their elements alike
Extended(a, b) ==
  /\ Len(a) > TupleMax /\ Len(b) > TupleMax
  /\ \A i \in DOMAIN a : Same(a[1], a[i])
  /\ \A i \in DOMAIN b : Same(a[1], b[i])
Same(v, w) ==
  /\ v.k = w.k
  /\ CASE v.k = "num" -> IsInteger(v.t) = IsInteger(w.t)
       [] v.k = "arr" -> Alike(v.a, w.a) \/ Extended(v.a, w.a)
       [] v.k \in {"obj", "mobj"} -> Len(v.m) = Len(w.m) /\ \A i \in DOMAIN v.m : v.m[i].n = w.m[i].n /\ Same(v.m[i].v, w.m[i].v)
       [] OTHER -> TRUE
=============================================================================
