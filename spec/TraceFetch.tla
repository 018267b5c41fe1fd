----------------------------- MODULE TraceFetch -----------------------------
(* Recorded events:                                                        *)
(*  ev = "fetch": a transfer (b, kind, status, cuts, end) and what the code *)
(*    answered (res), same: the answer is that for the bytes given at once; *)
(*    part: an option looks at a part of the sample and may not find it    *)
(*  ev = "whole": a transfer described by ok alone (encoded bodies,        *)
(*    redirects, sources that cannot be opened)                            *)
(*  ev = "pair": two texts for one code generation each (b, c), same: equal *)
(*    output (or equally an error)                                         *)
(*  ev = "large": a transfer of a beginning, a unit repeated very often,    *)
(*    and an end; same: the answer is that for few repetitions            *)
EXTENDS TraceBase, Volume

\* the same JSON value: numbers of the same kind may be spelled differently
RECURSIVE SameValue(_, _)
SameValue(v, w) ==
  /\ v.k = w.k
  /\ CASE v.k = "arr" -> Len(v.a) = Len(w.a) /\ \A i \in DOMAIN v.a : SameValue(v.a[i], w.a[i])
       [] v.k = "obj" -> /\ Len(v.m) = Len(w.m)
                         /\ \A i \in DOMAIN v.m : v.m[i].n = w.m[i].n /\ SameValue(v.m[i].v, w.m[i].v)
       [] v.k = "num" -> IsInteger(v.t) = IsInteger(w.t)
       [] v.k = "str" -> v.s = w.s
       [] v.k = "bool" -> v.b = w.b
       [] OTHER -> TRUE

FetchTags(e) ==
  LET want == Transfer(e.b, e.kind, e.status, e.cuts, e.end).res
  IN IF e.res = "crash" THEN {"crash"}
     ELSE IF want = "error" /\ e.res = "types" THEN {IF e.kind = "chunked" /\ e.end = "cut" THEN "cut-chunk" ELSE "prefix"}
     ELSE IF want = "types" /\ e.res = "error" THEN (IF e.part /\ e.same THEN {} ELSE {"lost"})
     ELSE IF want = "types" /\ ~e.same THEN {"differs"} ELSE {}
WholeTags(e) ==
  IF e.res = "crash" THEN {"crash"}
  ELSE IF e.how = "cut" /\ e.res = "types" /\ WellFormedText(e.b) THEN {"cut-chunk"}
  ELSE IF ~(e.ok /\ WellFormedText(e.b)) /\ e.res = "types" THEN {"prefix"}
  ELSE IF e.ok /\ WellFormedText(e.b) /\ e.res = "error" THEN (IF e.part /\ e.same THEN {} ELSE {"lost"})
  ELSE IF e.res = "types" /\ ~e.same THEN {"differs"} ELSE {}
LargeTags(e) ==
  LET want == LargeFate(e.head, e.unit, e.tail, e.kind, e.status, e.sent, e.total, e.end)
  IN IF ~Usable(e.head, e.unit, e.tail) THEN {"unusable"}
     ELSE IF e.res = "crash" THEN {"crash"}
     ELSE IF want = "error" /\ e.res = "types" THEN {"prefix"}
     ELSE IF want = "types" /\ e.res = "error" THEN {"lost"}
     ELSE IF want = "types" /\ ~e.same THEN {"differs"} ELSE {}
PairTags(e) ==
  LET p == Read(e.b)   q == Read(e.c)
  IN IF p.m # "end" \/ q.m # "end" THEN {"unusable"}
     ELSE IF ~SameValue(p.v, q.v) THEN {"unusable"}
     ELSE IF e.same THEN {} ELSE {"spelling"}
Tags(e) ==
  CASE e.ev = "fetch" -> FetchTags(e)
    [] e.ev = "whole" -> WholeTags(e)
    [] e.ev = "large" -> LargeTags(e)
    [] OTHER -> PairTags(e)
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
