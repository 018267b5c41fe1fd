------------------------------- MODULE Volume -------------------------------
(***************************************************************************)
(* Samples of any size: a beginning, a unit repeated n times, and an end.  *)
(* Which bytes may follow depends on the control of the byte machine alone *)
(* (its mode and what is open, not what has been read). So once a          *)
(* repetition of the unit leaves the control as it was, all further ones   *)
(* do, and the text is well-formed for all such n or for none.             *)
(***************************************************************************)
EXTENDS Fetch, Skeleton

Control(q) ==
  IF q.m = "dead" THEN [m |-> "dead", st |-> <<>>, key |-> FALSE, lit |-> <<>>]
  ELSE [m |-> q.m, st |-> [i \in DOMAIN q.st |-> q.st[i].k], key |-> q.key, lit |-> q.lit]
RECURSIVE Times(_, _)
Times(unit, n) == IF n = 0 THEN <<>> ELSE Times(unit, n - 1) \o unit
Pumped(head, unit, n) == head \o Times(unit, n)
After(bytes) == FoldLeft(Step, Start, bytes)
\* from n on, repetitions change nothing in what may follow
Steady(head, unit, n) == Control(After(Pumped(head, unit, n))) = Control(After(Pumped(head, unit, n + 1)))

\* the same value, but for repetitions in lists that are longer than any tuple: the same elements appear, in the same order
\* of first appearance
Firsts(a) == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : \A j \in 1..(i - 1) : ~Same(a[j], a[i]))
Repeated(a, b) ==
  /\ Len(a) > TupleMax /\ Len(b) > TupleMax
  /\ LET f == Firsts(a)   g == Firsts(b)
     IN Len(f) = Len(g) /\ \A i \in DOMAIN f : Same(a[f[i]], b[g[i]])
RECURSIVE Grown(_, _)
Grown(v, w) ==
  /\ v.k = w.k
  /\ CASE v.k = "arr" -> \/ Len(v.a) = Len(w.a) /\ \A i \in DOMAIN v.a : Grown(v.a[i], w.a[i])
                         \/ Repeated(v.a, w.a)
       [] v.k \in {"obj", "mobj"} -> Len(v.m) = Len(w.m) /\ \A i \in DOMAIN v.m : v.m[i].n = w.m[i].n /\ Grown(v.m[i].v, w.m[i].v)
       [] OTHER -> Same(v, w)

\* enough repetitions to be longer than any tuple
Base == TupleMax + 2
Usable(head, unit, tail) ==
  /\ Steady(head, unit, Base)
  /\ LET p == Read(Pumped(head, unit, Base) \o tail)   q == Read(Pumped(head, unit, Base + 1) \o tail)
     IN p.m = "end" => q.m = "end" /\ Grown(p.v, q.v)
\* what becomes of the transfer of a large sample of which `sent` of `total` bytes arrive before the end. Before a proper
\* end all bytes arrive
LargeFate(head, unit, tail, kind, status, sent, total, end) ==
  IF status < 400 /\ sent = total /\ Proper(kind, end, sent, total) /\ WellFormedText(Pumped(head, unit, Base) \o tail) THEN "types" ELSE "error"
=============================================================================
