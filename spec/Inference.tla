----------------------------- MODULE Inference -----------------------------
(***************************************************************************)
(* The inference as it runs: one pass over the tokens of the sample with a *)
(* stack of open arrays and objects, in which values are inferred, are      *)
(* discarded (outside the unwrap pointer, or under an opaque hint), or are  *)
(* searched for the nodes that the unwrap pointer designates. The token     *)
(* source can fail at any point. Checked: whatever the machine answers is   *)
(* what the declarative reading (Pointers, Shapes) says about the document. *)
(***************************************************************************)
EXTENDS Pointers, Json
CONSTANTS MaxTokens, MaxDepth, PointerSet, HintSet, ThrC, Emit

Thr == IF ThrC = 999 THEN NoThreshold ELSE ThrC
KeyToks == {"a", "b", "-"}            \* strings: member names, or values
ScalarToks == {"1", "null"}
PunctToks == {"{", "}", "[", "]", ",", ":"}
Toks == KeyToks \union ScalarToks \union PunctToks

Pointer == [none |-> <<"">>, few |-> <<"", "/-", "/a", "/0">>, all |-> <<"", "/", "/-", "/a", "a", "/0", "/1", "/-/a", "/a/-", "/-/-">>]
HintLists ==
  [none |-> << <<>> >>,
   few  |-> << <<>>, <<[p |-> "/a", t |-> "Foo"]>>, <<[p |-> "", t |-> "map"]>>, <<[p |-> "/-", t |-> "map"]>> >>,
   all  |-> << <<>>, <<[p |-> "", t |-> "Foo"]>>, <<[p |-> "", t |-> "map"]>>, <<[p |-> "/a", t |-> "Foo"]>>, <<[p |-> "/-", t |-> "Foo"]>>,
               <<[p |-> "/-", t |-> "map"]>>, <<[p |-> "/0", t |-> "Foo"]>>, <<[p |-> "/1", t |-> "map"]>>, <<[p |-> "/-/a", t |-> "Foo"]>>,
               <<[p |-> "", t |-> "map"], [p |-> "/a", t |-> "Foo"]>>, <<[p |-> "/a", t |-> "Foo"], [p |-> "/-", t |-> "map"]>> >>]

VARIABLES toks,      \* the tokens read so far (history)
          st,        \* the stack
          ctl,       \* what is expected next
          ctx,       \* how the value that is expected is to be treated
          res,       \* result, when ctl = "end"
          ptr, hints \* the options

vars == <<toks, st, ctl, ctx, res, ptr, hints>>
None == [k |-> "none"]
NoHints == <<>>
Infer(hs) == [mode |-> "infer", hs |-> hs, ptr |-> <<>>]
Discard == Infer(NoHints)             \* the result is not looked at
Search(hs, p) == [mode |-> "unwrap", hs |-> hs, ptr |-> p]
OptJoin(a, b) == IF a = None THEN b ELSE IF b = None THEN a ELSE Join(a, b)

StepBy(hs, m(_)) == StepHints(hs, m)
ElemCtx(f) ==                         \* how the next element of array frame f is treated
  IF f.mode = "infer" THEN Infer(StepBy(f.hs, LAMBDA t : MatchesIndex(t, f.i)))
  ELSE IF MatchesIndex(Head(f.ptr), f.i) THEN Search(f.hs, Tail(f.ptr)) ELSE Discard
MemberCtx(f, key) ==
  IF f.mode = "infer" THEN Infer(StepBy(f.hs, LAMBDA t : MatchesKey(t, key)))
  ELSE IF MatchesKey(Head(f.ptr), key) THEN Search(f.hs, Tail(f.ptr)) ELSE Discard

(* A new state is a record [st, ctl, ctx, res]                             *)
Cur == [st |-> st, ctl |-> ctl, ctx |-> ctx, res |-> res]
Failed(q) == [q EXCEPT !.ctl = "error", !.res = None, !.st = <<>>, !.ctx = Discard]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(q) == q.st[Len(q.st)]

Folded(shapes, start) == FoldLeft(LAMBDA acc, x : Join(acc, x), start, shapes)
\* what a closed frame is inferred as
ArrayShape(f) == IF f.shapes = <<>> THEN Vec(Bottom)
                 ELSE IF Len(f.shapes) > 1 /\ f.i <= TupleMax THEN Tup(f.shapes)
                 ELSE Vec(Folded(f.shapes, f.fold))
MapShape(f) == MapOf(Folded([i \in DOMAIN f.fs |-> f.fs[i].s], Bottom))
ObjectShape(f) == IF f.asMap \/ (Thr # NoThreshold /\ Len(f.fs) > Thr) THEN MapShape(f) ELSE StructOf(f.fs)

RECURSIVE Completed(_, _)
Completed(q, r) ==                    \* a value is complete, with result r
  IF q.st = <<>> THEN [q EXCEPT !.ctl = "end", !.res = r, !.ctx = Discard]
  ELSE LET f == Top(q)
           put(g) == [q EXCEPT !.st[Len(q.st)] = g, !.ctl = "sep", !.ctx = Discard]
       IN CASE f.k = "opaque" -> Completed([q EXCEPT !.st = Pop(@)], Opaque(f.n))
            [] f.k = "arr" /\ f.mode = "infer" ->
                 put(IF f.i < TupleMax THEN [f EXCEPT !.shapes = Append(@, r), !.i = @ + 1]
                     ELSE [f EXCEPT !.fold = Join(r, @), !.i = @ + 1])
            [] f.k = "arr" -> put([f EXCEPT !.i = @ + 1, !.out = IF f.hit THEN OptJoin(@, r) ELSE @])
            [] f.k = "obj" /\ f.mode = "infer" -> put([f EXCEPT !.fs = Append(@, [n |-> f.key, s |-> r])])
            [] OTHER -> put([f EXCEPT !.out = IF f.hit THEN OptJoin(@, r) ELSE @])
Closed(q) == LET f == Top(q)
                 r == IF f.mode = "unwrap" THEN f.out ELSE IF f.k = "arr" THEN ArrayShape(f) ELSE ObjectShape(f)
             IN Completed([q EXCEPT !.st = Pop(@)], r)

NewArr(c) == [k |-> "arr", mode |-> c.mode, hs |-> c.hs, ptr |-> c.ptr, i |-> 0, shapes |-> <<>>, fold |-> Bottom, out |-> None, hit |-> FALSE]
NewObj(c, asMap) == [k |-> "obj", mode |-> c.mode, hs |-> c.hs, ptr |-> c.ptr, fs |-> <<>>, key |-> "", asMap |-> asMap, out |-> None, hit |-> FALSE]

ScalarShape(t) == IF t = "1" THEN Integer ELSE IF t = "null" THEN Null ELSE String

\* the token begins a value that is treated as c
RECURSIVE BeginValue(_, _, _)
BeginValue(q, c, t) ==
  LET push(f, next) == [q EXCEPT !.st = Append(@, f), !.ctl = next, !.ctx = Discard]
      here == SelectSeq(c.hs, LAMBDA h : h.p = <<>>)
  IN IF c.mode = "unwrap" /\ c.ptr = <<>> THEN BeginValue(q, Infer(c.hs), t)
     ELSE IF c.mode = "infer" /\ here # <<>> THEN
       IF Head(here).t = "map" THEN (IF t = "{" THEN push(NewObj(c, TRUE), "key0") ELSE Failed(q))
       ELSE BeginValue([q EXCEPT !.st = Append(@, [k |-> "opaque", n |-> Head(here).t])], Discard, t)
     ELSE IF t = "{" THEN push(NewObj(c, FALSE), "key0")
     ELSE IF t = "[" THEN push(NewArr(c), "value0")
     ELSE IF t \in KeyToks \union ScalarToks THEN Completed(q, IF c.mode = "unwrap" THEN None ELSE ScalarShape(t))
     ELSE Failed(q)

\* the context of the next element is decided when it begins
ArmElem(q) == LET f == Top(q)
                  hit == f.mode = "unwrap" /\ MatchesIndex(Head(f.ptr), f.i)
              IN [q EXCEPT !.ctl = "value", !.ctx = ElemCtx(f), !.st[Len(q.st)] = [f EXCEPT !.hit = hit]]
ArmMember(q, key) == LET f == Top(q)
                         hit == f.mode = "unwrap" /\ MatchesKey(Head(f.ptr), key)
                     IN [q EXCEPT !.ctl = "colon", !.ctx = MemberCtx(f, key), !.st[Len(q.st)] = [f EXCEPT !.hit = hit, !.key = key]]

Step1(q, t) ==
  CASE q.ctl = "value" -> BeginValue(q, q.ctx, t)
    [] q.ctl = "value0" -> IF t = "]" THEN Closed(q) ELSE LET a == ArmElem(q) IN BeginValue(a, a.ctx, t)
    [] q.ctl \in {"key0", "key"} -> IF t = "}" /\ q.ctl = "key0" THEN Closed(q)
                                    ELSE IF t \in KeyToks THEN ArmMember(q, t) ELSE Failed(q)
    [] q.ctl = "colon" -> IF t = ":" THEN [q EXCEPT !.ctl = "value"] ELSE Failed(q)
    [] q.ctl = "sep" -> IF Top(q).k = "arr" THEN (IF t = "]" THEN Closed(q) ELSE IF t = "," THEN ArmElem(q) ELSE Failed(q))
                        ELSE (IF t = "}" THEN Closed(q) ELSE IF t = "," THEN [q EXCEPT !.ctl = "key"] ELSE Failed(q))
    [] OTHER -> Failed(q)      \* after the end

Init == /\ toks = <<>> /\ st = <<>> /\ ctl = "value" /\ res = None
        /\ ptr \in Ran(Pointer[PointerSet]) /\ hints \in Ran(HintLists[HintSet])
        /\ ctx = Search([i \in DOMAIN hints |-> [p |-> HintTokens(hints[i].p), t |-> hints[i].t]], UnwrapTokens(ptr))

Become(q) == st' = q.st /\ ctl' = q.ctl /\ ctx' = q.ctx /\ res' = q.res
Token == /\ ctl \notin {"error", "fault", "done"} /\ Len(toks) < MaxTokens
         /\ \E t \in Toks : LET q == Step1(Cur, t) IN
              /\ Len(SelectSeq(q.st, LAMBDA f : f.k # "opaque")) <= MaxDepth
              /\ Become(q) /\ toks' = Append(toks, t)
         /\ UNCHANGED <<ptr, hints>>
\* the source fails: no more tokens, ever
Fault == ctl \notin {"error", "fault", "done"} /\ Become([Failed(Cur) EXCEPT !.ctl = "fault"]) /\ UNCHANGED <<toks, ptr, hints>>
\* the source ends
Eof == /\ ctl \notin {"error", "fault", "done"}
       /\ Become(IF ctl = "end" /\ res # None THEN [Cur EXCEPT !.ctl = "done"] ELSE Failed(Cur))
       /\ UNCHANGED <<toks, ptr, hints>>
Next == Token \/ Fault \/ Eof

----------------------------------------------------------------------------
(* The document that the tokens spell: recursive descent, over positions;   *)
(* [v, i] the value and the position after it, or v = None                  *)
Bad == [v |-> None, i |-> 0]
Tok(i) == IF i \in DOMAIN toks THEN toks[i] ELSE "eof"
RECURSIVE PValue(_), PElems(_, _), PMembers(_, _)
PElems(i, acc) ==
  LET x == PValue(i)
  IN IF x.v = None THEN Bad
     ELSE IF Tok(x.i) = "," THEN PElems(x.i + 1, Append(acc, x.v))
     ELSE IF Tok(x.i) = "]" THEN [v |-> [k |-> "arr", a |-> Append(acc, x.v)], i |-> x.i + 1] ELSE Bad
PMembers(i, acc) ==
  IF Tok(i) \notin KeyToks \/ Tok(i + 1) # ":" THEN Bad
  ELSE LET x == PValue(i + 2)
           m == Append(acc, [n |-> Tok(i), v |-> x.v])
       IN IF x.v = None THEN Bad
          ELSE IF Tok(x.i) = "," THEN PMembers(x.i + 1, m)
          ELSE IF Tok(x.i) = "}" THEN [v |-> [k |-> "obj", m |-> m], i |-> x.i + 1] ELSE Bad
PValue(i) ==
  LET t == Tok(i) IN
  CASE t = "[" -> IF Tok(i + 1) = "]" THEN [v |-> [k |-> "arr", a |-> <<>>], i |-> i + 2] ELSE PElems(i + 1, <<>>)
    [] t = "{" -> IF Tok(i + 1) = "}" THEN [v |-> [k |-> "obj", m |-> <<>>], i |-> i + 2] ELSE PMembers(i + 1, <<>>)
    [] t = "1" -> [v |-> [k |-> "num", t |-> "1"], i |-> i + 1]
    [] t = "null" -> [v |-> [k |-> "null"], i |-> i + 1]
    [] t \in KeyToks -> [v |-> [k |-> "str", s |-> t], i |-> i + 1]
    [] OTHER -> Bad
Doc == LET x == PValue(1) IN IF x.v # None /\ x.i = Len(toks) + 1 THEN x.v ELSE None

RECURSIVE Repeats(_)
Repeats(v) ==
  CASE v.k = "arr" -> \E i \in DOMAIN v.a : Repeats(v.a[i])
    [] v.k = "obj" -> Cardinality(Keys(v)) < Len(v.m) \/ \E i \in DOMAIN v.m : Repeats(v.m[i].v)
    [] OTHER -> FALSE

\* types only for a complete, well-formed document with a match, and exactly the designated ones
Answer ==
  ctl = "done" =>
    /\ Doc # None
    /\ \/ Repeats(Doc)
       \/ LET ob == Observed(Doc, ptr, hints)
          IN /\ ~ob.err
             /\ Ambiguous(ob.vs, Thr) \/ Norm(res) = CanonNorm(ob.vs, Thr)
\* an error only for a reason
Refusal ==
  ctl = "error" => \/ Doc = None
                   \/ Repeats(Doc)
                   \/ Observed(Doc, ptr, hints).err
NeverAfterFault == ctl = "fault" => res = None
\* a document that is complete is recognised as such
EndIsDoc == ctl = "end" => Doc # None
Vectors == (Emit /\ ctl \in {"done", "error", "fault"}) =>
             PrintT("RUN " \o ToJson([t |-> toks, p |-> ptr, h |-> hints, e |-> ctl]))
=============================================================================
