------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Inference merges the structures of the values it meets at one position, *)
(* one after the other. State: the values met so far and the merged        *)
(* structure. TLC visits every sequence of at most MaxLen values from Pool *)
(* (so every order) and checks that what has been merged is the structure  *)
(* of the values, whatever the order, and that it admits them and no more. *)
(***************************************************************************)
EXTENDS Shapes, Tightness, Json, IOUtils

CONSTANTS MaxLen, Emit, ThrC   \* ThrC = 999: no threshold
Thr == IF ThrC = 999 THEN NoThreshold ELSE ThrC

N(t) == [k |-> "num", t |-> t]
S(s) == [k |-> "str", s |-> s]
A(xs) == [k |-> "arr", a |-> xs]
O(ms) == [k |-> "obj", m |-> ms]
M(n, v) == [n |-> n, v |-> v]
Nul == [k |-> "null"]
Tru == [k |-> "bool", b |-> TRUE]

Small == <<
  Nul, Tru, N("1"), N("1.5"), S("s"),
  A(<<>>), A(<<N("1")>>), A(<<Nul>>), A(<<N("1"), S("s")>>), A(<<S("s"), N("1")>>), A(<<N("1"), N("2")>>), A(<<N("1"), Nul>>),
  O(<<>>), O(<<M("a", N("1"))>>), O(<<M("a", Nul)>>), O(<<M("b", S("s"))>>), O(<<M("a", N("0.5")), M("b", S("s"))>>),
  O(<<M("a", S("s"))>>) >>
Large == Small \o <<
  N("-0"), N("9223372036854775808"), A(<<N("1"), S("s"), Tru>>), A(<<A(<<>>)>>), A(<<A(<<N("1"), S("s")>>)>>),
  A(<<O(<<M("a", N("1"))>>), O(<<>>)>>), O(<<M("a", A(<<>>))>>), O(<<M("a", A(<<N("1"), S("s")>>))>>),
  O(<<M("a", O(<<M("a", N("1"))>>))>>), O(<<M("a", O(<<>>)), M("b", Nul)>>) >>
CONSTANT PoolName
Pool == IF PoolName = "small" THEN Small ELSE Large

ShapeOf(v) == ToJoin(Canon(<<v>>, Thr))

VARIABLES met, merged
Init == met = <<>> /\ merged = Bottom
Meet(i) == /\ Len(met) < MaxLen
           /\ met' = Append(met, Pool[i])
           /\ merged' = Join(merged, ShapeOf(Pool[i]))
Next == \E i \in DOMAIN Pool : Meet(i)

(* C03: the order in which values were met does not matter *)
Canonical == Norm(merged) = CanonNorm(met, Thr)
(* C01: every value met is admitted (members that conflict in kind need not be marked optional: known finding) *)
Sound == \A i \in DOMAIN met : AdmitsButAny(Norm(merged), met[i])
(* C02 *)
Tightest == met # <<>> => Tight(Norm(merged), met, Thr)
(* merging the same value again, or another result already contained, changes nothing; grouping does not matter *)
Idempotent == Join(merged, merged) = merged
Grouping == \A k \in 1..(Len(met) - 1) :
              LET fold(ss) == FoldLeft(LAMBDA acc, v : Join(acc, ShapeOf(v)), Bottom, ss)
              IN Norm(Join(fold(SubSeq(met, 1, k)), fold(SubSeq(met, k + 1, Len(met))))) = Norm(merged)
(* the behaviours, as vectors for the real code *)
Vectors == (Emit /\ Len(met) = MaxLen) => PrintT("VEC " \o ToJson(met))
=============================================================================
