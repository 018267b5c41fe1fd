----------------------------- MODULE Tightness -----------------------------
(* A structure says no more than the values show: every claim in it has a  *)
(* witness among the values observed at its position. (Stated on its own,  *)
(* not through Canon, so that the two can be checked against each other.)  *)
EXTENDS Shapes

NonNull(vs) == SelectSeq(vs, LAMBDA v : v.k # "null")
Elems(vs) == Concat([i \in DOMAIN vs |-> IF vs[i].k = "arr" THEN vs[i].a ELSE <<>>])
Vals(vs) == Concat([i \in DOMAIN vs |-> IF vs[i].k \in {"obj", "mobj"} THEN [j \in DOMAIN vs[i].m |-> vs[i].m[j].v] ELSE <<>>])
At(vs, key) == LET have == SelectSeq(vs, LAMBDA o : o.k \in {"obj", "mobj"} /\ key \in Keys(o))
               IN [i \in DOMAIN have |-> Get(have[i], key)]
RECURSIVE Tight(_, _, _)
Tight(s, vs, thr) ==
  CASE s.k = "nullable" -> (\E i \in DOMAIN vs : vs[i].k = "null") /\ Tight(s.e, NonNull(vs), thr)
    [] s.k = "null" -> vs # <<>> /\ NonNull(vs) = <<>>
    [] s.k = "bottom" -> vs = <<>>
    [] s.k = "any" ->       \* the values conflict in kind
         Cardinality(
                     {KindOf(NonNull(vs)[i], thr) : i \in DOMAIN NonNull(vs)}) >= 2
    [] s.k = "floating" -> \E i \in DOMAIN vs : vs[i].k = "num" /\ ~IsInteger(vs[i].t)
    [] s.k = "vec" ->
         LET as == SelectSeq(vs, LAMBDA v : v.k = "arr")
         IN as # <<>> /\ Tight(s.e, Elems(vs), thr)
    [] s.k = "tuple" ->
         /\ \A i \in DOMAIN vs : vs[i].k = "arr" => Len(vs[i].a) = Len(s.es)
         /\ \A j \in DOMAIN s.es : LET as == SelectSeq(vs, LAMBDA v : v.k = "arr")
                                   IN Tight(s.es[j], [i \in DOMAIN as |-> as[i].a[j]], thr)
    [] s.k = "map" -> /\ \E i \in DOMAIN vs : vs[i].k \in {"obj", "mobj"} /\ IsMapObject(vs[i], thr)
                      /\ Tight(s.e, Vals(vs), thr)
    [] s.k = "struct" ->
         LET os == SelectSeq(vs, LAMBDA v : v.k \in {"obj", "mobj"})
         IN /\ os # <<>>
            /\ \A key \in DOMAIN s.m :
                 /\ At(vs, key) # <<>>
                 /\ s.m[key].o => \E i \in DOMAIN os : key \notin Keys(os[i])
                 /\ Tight(s.m[key].s, At(vs, key), thr)
    [] s.k = "opaque" -> \E i \in DOMAIN vs : vs[i].k = "op"
    [] OTHER -> TRUE
=============================================================================
