--------------------------- MODULE SkeletonModel ---------------------------
(* A sample is changed step by step, each step leaving its skeleton alone. *)
(* Whatever the pointer and the threshold, what inference observes keeps   *)
(* its structure, and so does the declared program, which is made from     *)
(* nothing else (TypeAlloc).                                               *)
EXTENDS Skeleton, Json
CONSTANTS Depth, Emit, PoolName
\* the samples one step away
CONSTANTS Strings, Integers, Others
RECURSIVE Tweaks(_)
Tweaks(v) ==
  CASE v.k = "str" -> {[v EXCEPT !.s = s] : s \in Strings}
    [] v.k = "bool" -> {[v EXCEPT !.b = ~@]}
    [] v.k = "num" -> {[v EXCEPT !.t = t] : t \in IF IsInteger(v.t) THEN Integers ELSE Others}
    [] v.k = "arr" -> UNION {{[v EXCEPT !.a[i] = x] : x \in Tweaks(v.a[i])} : i \in DOMAIN v.a}
                      \union (IF Extended(v.a, v.a) THEN {[v EXCEPT !.a = Append(@, v.a[j])] : j \in DOMAIN v.a} ELSE {})
    [] v.k = "obj" -> UNION {{[v EXCEPT !.m[i].v = x] : x \in Tweaks(v.m[i].v)} : i \in DOMAIN v.m}
    [] OTHER -> {}

N(t) == [k |-> "num", t |-> t]
S(s) == [k |-> "str", s |-> s]
A(xs) == [k |-> "arr", a |-> xs]
O(ms) == [k |-> "obj", m |-> ms]
M(n, v) == [n |-> n, v |-> v]
Nul == [k |-> "null"]
Tru == [k |-> "bool", b |-> TRUE]
Many(xs, v) == A(xs \o [i \in 1..(13 - Len(xs)) |-> v])
Flat == <<
  O(<<M("a", S("x")), M("b", S("x"))>>), O(<<M("a", N("1")), M("b", N("1.5"))>>), O(<<M("a", Tru), M("b", Nul)>>),
  A(<<S("a"), S("b")>>), A(<<S("a"), N("1")>>), A(<<N("1"), N("-0")>>), A(<<A(<<N("1"), N("2")>>), A(<<N("3")>>)>>),
  A(<<O(<<M("a", S(""))>>), O(<<M("a", Nul)>>), O(<<>>)>>), O(<<M("a", O(<<M("x", N("1"))>>)), M("b", O(<<M("x", N("2"))>>))>>),
  O(<<M("a", O(<<M("x", N("1"))>>)), M("b", O(<<M("x", S("1"))>>))>>), O(<<M("1", N("1")), M("2", N("2")), M("3", N("0.5"))>>),
  A(<<A(<<S("a"), N("1")>>), A(<<S("b"), N("2")>>)>>), O(<<M("a", A(<<>>)), M("b", A(<<Tru, Tru>>))>>) >>
Long == <<
  Many(<<N("1.5"), Nul>>, N("1")), Many(<<S("a"), Tru>>, S("b")), Many(<<O(<<M("b", N("1"))>>)>>, O(<<M("a", N("1"))>>)),
  Many(<<>>, O(<<M("a", N("1")), M("b", S("1"))>>)), O(<<M("a", Many(<<A(<<N("1"), S("s")>>)>>, A(<<N("2"), S("s")>>)))>>), Many(<<A(<<N("1"), S("s")>>), A(<<N("1")>>)>>, A(<<>>)),
  O(<<M("a", Many(<<O(<<M("x", S(""))>>), O(<<>>)>>, O(<<M("x", Nul), M("y", Tru)>>))), M("b", O(<<M("x", S("")), M("y", Tru)>>))>>) >>
Pool == IF PoolName = "flat" THEN Flat ELSE Long
Ptrs == {"", "/-", "/a", "/b", "/0", "/-/a"}
Thrs == {NoThreshold, 0, 1, 2}

VARIABLES start, now, steps
Init == /\ start \in {Pool[i] : i \in DOMAIN Pool} /\ now = start /\ steps = 0
Next == /\ steps < Depth /\ now' \in Tweaks(now) /\ now' # now /\ steps' = steps + 1 /\ UNCHANGED start

SameSkeleton == Same(start, now)
StructureOf(v, p, t) == LET ob == Observed(v, p, <<>>) IN IF ob.err THEN [k |-> "error"] ELSE CanonNorm(ob.vs, t)
Structure == \A p \in Ptrs, t \in Thrs : StructureOf(start, p, t) = StructureOf(now, p, t)
\* merged step by step, members come in the same order, too
Order == LET fold(v) == JoinFold([i \in DOMAIN v.a |-> ToJoin(Canon(<<v.a[i]>>, NoThreshold))])
         IN now.k = "arr" => fold(start) = fold(now)
Pairs == (Emit /\ steps = Depth) => PrintT("PAIR " \o ToJson([a |-> start, b |-> now]))
=============================================================================
