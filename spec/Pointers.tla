------------------------------ MODULE Pointers ------------------------------
(* JSON Pointers with "-" as a wildcard: what unwrap and hints designate.  *)
EXTENDS Shapes

RECURSIVE SplitFrom(_, _, _)
\* split s at every c, from position i on
SplitFrom(s, c, i) ==
  LET j == Find(s, c, i)
  IN IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, c, j + 1)
Split(s, c) == IF s = "" THEN <<"">> ELSE SplitFrom(s, c, 1)

\* reference tokens of a hint pointer (which starts with "/" unless it is the root)
HintTokens(p) == IF p = "" THEN <<>> ELSE Tail(Split(p, "/"))
\* unwrap also takes "/" for the root and a pointer without the leading slash
UnwrapTokens(p) ==
  IF p = "" \/ p = "/" THEN <<>>
  ELSE IF Ch(p, 1) = "/" THEN Tail(Split(p, "/")) ELSE Split(p, "/")

Decoded(tok) == ReplaceIn(ReplaceIn(tok, "~1", "/"), "~0", "~")
MatchesKey(tok, key) == tok = "-" \/ Decoded(tok) = key
MatchesIndex(tok, i) == tok = "-" \/ tok = ToString(i)     \* i counts from 0

RECURSIVE Nodes(_, _)
\* the nodes that the tokens designate in v, in document order
Nodes(v, toks) ==
  IF toks = <<>> THEN <<v>>
  ELSE IF v.k \in {"obj", "mobj"} THEN
    LET hit == SelectSeq(v.m, LAMBDA e : MatchesKey(Head(toks), e.n))
    IN Concat([i \in DOMAIN hit |-> Nodes(hit[i].v, Tail(toks))])
  ELSE IF v.k = "arr" THEN
    Concat([i \in DOMAIN v.a |-> IF MatchesIndex(Head(toks), i - 1) THEN Nodes(v.a[i], Tail(toks)) ELSE <<>>])
  ELSE <<>>

(* Hints: seq of [p |-> tokens, t |-> "map" or a type name]. At every value the first hint that *)
(* has arrived there decides; below an opaque value nothing is looked at.                       *)
StepHints(hs, m(_)) ==
  LET hit == SelectSeq(hs, LAMBDA h : h.p # <<>> /\ m(Head(h.p)))
  IN [i \in DOMAIN hit |-> [hit[i] EXCEPT !.p = Tail(@)]]
BadTarget == [k |-> "bad"]
RECURSIVE Annotate(_, _)
Annotate(v, hs) ==
  LET here == SelectSeq(hs, LAMBDA h : h.p = <<>>)
      obj(kind) == [k |-> kind, m |-> [i \in DOMAIN v.m |->
                     [n |-> v.m[i].n, v |-> Annotate(v.m[i].v, StepHints(hs, LAMBDA t : MatchesKey(t, v.m[i].n)))]]]
  IN IF here # <<>> /\ Head(here).t # "map" THEN [k |-> "op", n |-> Head(here).t]
     ELSE IF here # <<>> THEN (IF v.k = "obj" THEN obj("mobj") ELSE BadTarget)
     ELSE IF v.k = "obj" THEN obj("obj")
     ELSE IF v.k = "arr" THEN
       [k |-> "arr", a |-> [i \in DOMAIN v.a |-> Annotate(v.a[i], StepHints(hs, LAMBDA t : MatchesIndex(t, i - 1)))]]
     ELSE v
RECURSIVE HasBad(_)
HasBad(v) ==
  CASE v.k = "bad" -> TRUE
    [] v.k = "arr" -> \E i \in DOMAIN v.a : HasBad(v.a[i])
    [] v.k \in {"obj", "mobj"} -> \E i \in DOMAIN v.m : HasBad(v.m[i].v)
    [] OTHER -> FALSE

(* The observed values that inference works on, or an error                *)
Observed(val, unwrap, hints) ==
  LET ns == Nodes(val, UnwrapTokens(unwrap))
      hs == [i \in DOMAIN hints |-> [p |-> HintTokens(hints[i].p), t |-> hints[i].t]]
      an == [i \in DOMAIN ns |-> Annotate(ns[i], hs)]
  IN IF ns = <<>> \/ \E i \in DOMAIN an : HasBad(an[i]) THEN [err |-> TRUE, vs |-> <<>>, raw |-> <<>>]
     ELSE [err |-> FALSE, vs |-> an, raw |-> ns]

(* Outcome of merging an opaque with both other kinds and null depends on   *)
(* the order (only possible where a hint designates some of the merged     *)
(* values and not others); such positions are left unconstrained           *)
RECURSIVE Ambiguous(_, _)
Ambiguous(vs, thr) ==
  LET nn == SelectSeq(vs, LAMBDA v : v.k # "null")
      kinds == {KindOf(vs[i], thr) : i \in DOMAIN vs}
      arrs == SelectSeq(vs, LAMBDA v : v.k = "arr")
      objs == SelectSeq(vs, LAMBDA v : v.k \in {"obj", "mobj"})
      ks == KeysInOrder(Concat([i \in DOMAIN objs |-> objs[i].m]), <<>>)
      sub(key) == LET have == SelectSeq(objs, LAMBDA o : key \in Keys(o)) IN [i \in DOMAIN have |-> Get(have[i], key)]
      allElems == Concat([i \in DOMAIN arrs |-> arrs[i].a])
      allVals == Concat([i \in DOMAIN objs |-> [j \in DOMAIN objs[i].m |-> objs[i].m[j].v]])
  IN \/ "op" \in kinds /\ Cardinality(kinds) > 2
     \/ Cardinality({vs[i].n : i \in {j \in DOMAIN vs : vs[j].k = "op"}}) > 1
     \/ arrs # <<>> /\ Ambiguous(allElems, thr)
     \/ "map" \in kinds /\ Ambiguous(allVals, thr)
     \/ \E i \in DOMAIN ks : Ambiguous(sub(ks[i]), thr)
=============================================================================
