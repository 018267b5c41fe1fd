------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* JSON values, inferred structures ("shapes"), and what the one has to do *)
(* with the other:                                                         *)
(*   Canon(vs)     the least structure of the values observed at a position *)
(*   Admits(s, v)  value v is an instance of structure s                    *)
(*   Join(a, b)    the incremental merge of two structures                  *)
(*   Subst(a, b)   a type declared for a may stand in for structure b       *)
(*                                                                         *)
(* Values    [k|->"null"] [k|->"bool"] [k|->"num", t|->text]               *)
(*           [k|->"str", s|->chars] [k|->"arr", a|->seq of values]         *)
(*           [k|->"obj", m|->seq of [n|->key, v|->value]]  (keys distinct) *)
(*   annotated by hints (see Hints): [k|->"op", n|->type name],            *)
(*           [k|->"mobj", m|->...] (object to be read as a map)            *)
(* Shapes    [k|->"bottom"|"any"|"null"|"bool"|"string"|"integer"|"floating"] *)
(*           [k|->"vec", e|->s] [k|->"tuple", es|->seq] [k|->"map", e|->s] *)
(*           [k|->"opaque", n|->name] [k|->"nullable", e|->s]              *)
(*           [k|->"struct", f|->seq of [n|->key, o|->BOOLEAN, s|->shape]]  *)
(*           [k|->"optional", e|->s]  (only in the incremental merge)      *)
(***************************************************************************)
EXTENDS Text, Integers, SequencesExt

TupleMin == 2
TupleMax == 12

Bottom == [k |-> "bottom"]
AnyT    == [k |-> "any"]
Null   == [k |-> "null"]
Bool   == [k |-> "bool"]
String == [k |-> "string"]
Integer  == [k |-> "integer"]
Floating == [k |-> "floating"]
Vec(s)   == [k |-> "vec", e |-> s]
MapOf(s) == [k |-> "map", e |-> s]
Tup(ss)  == [k |-> "tuple", es |-> ss]
StructOf(fs) == [k |-> "struct", f |-> fs]
Nullable(s)  == [k |-> "nullable", e |-> s]
Opaque(n)    == [k |-> "opaque", n |-> n]

----------------------------------------------------------------------------
(* Numbers: integer kind iff the text is a 64-bit integer (and not "-0")   *)
I64Max == "9223372036854775807"
I64MinAbs == "9223372036854775808"
IsInteger(t) ==
  LET neg  == Ch(t, 1) = "-"
      body == IF neg THEN SubSeq(t, 2, Len(t)) ELSE t
      lim  == IF neg THEN I64MinAbs ELSE I64Max
  IN /\ body # ""
     /\ AllChars(body, Digits)
     /\ t # "-0"
     /\ \/ Len(body) < 19
        \/ Len(body) = 19 /\ DecLeq(body, lim, 1)

----------------------------------------------------------------------------
(* The declarative reading: structure of the multiset of values observed   *)
Ran(s) == {s[i] : i \in DOMAIN s}
Keys(o) == {o.m[i].n : i \in DOMAIN o.m}
Get(o, key) == o.m[CHOOSE i \in DOMAIN o.m : o.m[i].n = key].v

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* keys in order of first appearance
RECURSIVE KeysInOrder(_, _)
KeysInOrder(ms, acc) ==
  IF ms = <<>> THEN acc
  ELSE KeysInOrder(Tail(ms), IF Contains(acc, Head(ms).n) THEN acc ELSE Append(acc, Head(ms).n))

NoThreshold == -1
IsMapObject(v, thr) == v.k = "mobj" \/ (thr # NoThreshold /\ Len(v.m) > thr)
KindOf(v, thr) == IF v.k \in {"obj", "mobj"} THEN (IF IsMapObject(v, thr) THEN "map" ELSE "struct") ELSE v.k

RECURSIVE Canon(_, _)
CanonStruct(os, thr) ==
  LET ks == KeysInOrder(Concat([i \in DOMAIN os |-> os[i].m]), <<>>)
      field(key) ==
        LET have == SelectSeq(os, LAMBDA o : key \in Keys(o))
            s    == Canon([i \in DOMAIN have |-> Get(have[i], key)], thr)
        IN [n |-> key, o |-> (Len(have) < Len(os) /\ s.k # "any"), s |-> s]
  IN StructOf([i \in DOMAIN ks |-> field(ks[i])])
CanonCore(vs, thr) ==      \* vs non-empty, without nulls
  LET kinds == {KindOf(vs[i], thr) : i \in DOMAIN vs}
  IN IF "op" \in kinds THEN Opaque((CHOOSE v \in Ran(vs) : v.k = "op").n)
     ELSE IF kinds = {"bool"} THEN Bool
     ELSE IF kinds = {"str"} THEN String
     ELSE IF kinds = {"num"} THEN IF \A i \in DOMAIN vs : IsInteger(vs[i].t) THEN Integer ELSE Floating
     ELSE IF kinds = {"arr"} THEN
       LET n == Len(vs[1].a)
       IN IF n >= TupleMin /\ n <= TupleMax /\ \A i \in DOMAIN vs : Len(vs[i].a) = n
          THEN Tup([j \in 1..n |-> Canon([i \in DOMAIN vs |-> vs[i].a[j]], thr)])
          ELSE Vec(Canon(Concat([i \in DOMAIN vs |-> vs[i].a]), thr))
     ELSE IF kinds = {"map"} THEN
       MapOf(Canon(Concat([i \in DOMAIN vs |-> [j \in DOMAIN vs[i].m |-> vs[i].m[j].v]]), thr))
     ELSE IF kinds = {"struct"} THEN CanonStruct(vs, thr)
     ELSE AnyT
Canon(vs, thr) ==
  LET nn == SelectSeq(vs, LAMBDA v : v.k # "null")
  IN IF vs = <<>> THEN Bottom
     ELSE IF nn = <<>> THEN Null
     ELSE LET core == CanonCore(nn, thr)
          IN IF Len(nn) < Len(vs) /\ core.k # "any" THEN Nullable(core) ELSE core

----------------------------------------------------------------------------
(* The incremental merge, as a join on shapes ("optional" marks a member   *)
(* that was absent from some object)                                       *)
IntoNullable(s) ==
  IF s.k \in {"null", "any", "bottom", "nullable"} THEN s
  ELSE IF s.k = "optional" THEN [k |-> "optional", e |->
        (IF s.e.k \in {"null", "any", "bottom", "nullable"} THEN s.e ELSE Nullable(s.e))]
  ELSE Nullable(s)
IntoOptional(s) == IF s.k \in {"any", "bottom", "optional"} THEN s ELSE [k |-> "optional", e |-> s]
HasField(s, key) == \E i \in DOMAIN s.f : s.f[i].n = key
FieldShape(s, key) == s.f[CHOOSE i \in DOMAIN s.f : s.f[i].n = key].s

RECURSIVE Join(_, _)
JoinFold(ss) == FoldLeft(LAMBDA acc, s : Join(acc, s), Bottom, ss)
JoinFields(a, b) ==
  LET onlyB == SelectSeq(b.f, LAMBDA x : ~HasField(a, x.n))
      fa(x) == [x EXCEPT !.s = IF HasField(b, x.n) THEN Join(x.s, FieldShape(b, x.n)) ELSE IntoOptional(x.s)]
  IN StructOf([i \in DOMAIN a.f |-> fa(a.f[i])] \o
              [i \in DOMAIN onlyB |-> [onlyB[i] EXCEPT !.s = IntoOptional(@)]])
Join(a, b) ==
  IF a = b THEN a
  ELSE IF b.k = "bottom" THEN a ELSE IF a.k = "bottom" THEN b
  ELSE IF {a.k, b.k} = {"integer", "floating"} THEN Floating
  ELSE IF b.k = "null" THEN IntoNullable(a) ELSE IF a.k = "null" THEN IntoNullable(b)
  ELSE IF b.k = "optional" THEN IntoOptional(Join(a, b.e)) ELSE IF a.k = "optional" THEN IntoOptional(Join(b, a.e))
  ELSE IF a.k = "tuple" /\ b.k = "tuple" THEN
         IF Len(a.es) = Len(b.es) THEN Tup([i \in DOMAIN a.es |-> Join(a.es[i], b.es[i])])
         ELSE Vec(Join(JoinFold(a.es), JoinFold(b.es)))
  ELSE IF a.k = "tuple" /\ b.k = "vec" THEN Vec(Join(b.e, JoinFold(a.es)))
  ELSE IF b.k = "tuple" /\ a.k = "vec" THEN Vec(Join(a.e, JoinFold(b.es)))
  ELSE IF a.k = "vec" /\ b.k = "vec" THEN Vec(Join(a.e, b.e))
  ELSE IF a.k = "map" /\ b.k = "map" THEN MapOf(Join(a.e, b.e))
  ELSE IF a.k = "struct" /\ b.k = "struct" THEN JoinFields(a, b)
  ELSE IF b.k = "nullable" THEN IntoNullable(Join(a, b.e)) ELSE IF a.k = "nullable" THEN IntoNullable(Join(b, a.e))
  ELSE IF a.k = "opaque" THEN a ELSE IF b.k = "opaque" THEN b
  ELSE AnyT

----------------------------------------------------------------------------
(* Normal form: members as a function from key to [o, s]; tuples shown as   *)
(* a vec unless a common element type would lose everything                *)
RECURSIVE Norm(_)
FoldShapes(ss) == JoinFold(ss)
IsTuple(es) == FoldShapes(es).k = "any" /\ \E i \in DOMAIN es : es[i].k # "any"
Unopt(s) == IF s.k = "optional" THEN s.e ELSE s
\* the join works on member shapes wrapped in "optional"; Canon on an o flag
RECURSIVE ToJoin(_)   \* Canon's representation -> the join's representation
ToJoin(s) ==
  CASE s.k \in {"vec", "map", "nullable", "optional"} -> [s EXCEPT !.e = ToJoin(@)]
    [] s.k = "tuple" -> [s EXCEPT !.es = [i \in DOMAIN @ |-> ToJoin(@[i])]]
    [] s.k = "struct" -> StructOf([i \in DOMAIN s.f |->
          [n |-> s.f[i].n, s |-> IF "o" \in DOMAIN s.f[i] /\ s.f[i].o
                                 THEN [k |-> "optional", e |-> ToJoin(s.f[i].s)] ELSE ToJoin(s.f[i].s)]])
    [] OTHER -> s
Norm(s) ==   \* of the join's representation
  CASE s.k \in {"vec", "map", "nullable", "optional"} -> [k |-> s.k, e |-> Norm(s.e)]
    [] s.k = "tuple" -> IF IsTuple(s.es) THEN [k |-> "tuple", es |-> [i \in DOMAIN s.es |-> Norm(s.es[i])]]
                        ELSE [k |-> "vec", e |-> Norm(FoldShapes(s.es))]
    [] s.k = "struct" ->
         [k |-> "struct", m |-> [key \in {s.f[i].n : i \in DOMAIN s.f} |->
            LET x == FieldShape(s, key) IN [o |-> x.k = "optional", s |-> Norm(Unopt(x))]]]
    [] OTHER -> s
CanonNorm(vs, thr) == Norm(ToJoin(Canon(vs, thr)))

----------------------------------------------------------------------------
(* Admits, on normal forms                                                 *)
RECURSIVE Admits(_, _)
Admits(s, v) ==
  CASE s.k = "any" -> TRUE
    [] s.k = "opaque" -> TRUE
    [] s.k = "null" -> v.k = "null"
    [] s.k = "nullable" -> v.k = "null" \/ Admits(s.e, v)
    [] s.k = "bool" -> v.k = "bool"
    [] s.k = "string" -> v.k = "str"
    [] s.k = "integer" -> v.k = "num" /\ IsInteger(v.t)
    [] s.k = "floating" -> v.k = "num"
    [] s.k = "vec" -> v.k = "arr" /\ \A i \in DOMAIN v.a : Admits(s.e, v.a[i])
    [] s.k = "tuple" -> v.k = "arr" /\ Len(v.a) = Len(s.es) /\ \A i \in DOMAIN v.a : Admits(s.es[i], v.a[i])
    [] s.k = "map" -> v.k \in {"obj", "mobj"} /\ \A i \in DOMAIN v.m : Admits(s.e, v.m[i].v)
    [] s.k = "struct" -> /\ v.k \in {"obj", "mobj"}
                         /\ Keys(v) \subseteq DOMAIN s.m
                         /\ \A i \in DOMAIN v.m : Admits(s.m[v.m[i].n].s, v.m[i].v)
                         /\ \A key \in DOMAIN s.m : key \in Keys(v) \/ s.m[key].o
    [] OTHER -> FALSE
\* as Admits, but not requiring members without any information to be marked optional
RECURSIVE AdmitsButAny(_, _)
AdmitsButAny(s, v) ==
  CASE s.k = "nullable" -> v.k = "null" \/ AdmitsButAny(s.e, v)
    [] s.k = "vec" -> v.k = "arr" /\ \A i \in DOMAIN v.a : AdmitsButAny(s.e, v.a[i])
    [] s.k = "tuple" -> v.k = "arr" /\ Len(v.a) = Len(s.es) /\ \A i \in DOMAIN v.a : AdmitsButAny(s.es[i], v.a[i])
    [] s.k = "map" -> v.k \in {"obj", "mobj"} /\ \A i \in DOMAIN v.m : AdmitsButAny(s.e, v.m[i].v)
    [] s.k = "struct" -> /\ v.k \in {"obj", "mobj"}
                         /\ Keys(v) \subseteq DOMAIN s.m
                         /\ \A i \in DOMAIN v.m : AdmitsButAny(s.m[v.m[i].n].s, v.m[i].v)
                         /\ \A key \in DOMAIN s.m : key \in Keys(v) \/ s.m[key].o \/ s.m[key].s.k = "any"
    [] OTHER -> Admits(s, v)

----------------------------------------------------------------------------
(* Substitution of a declared type (the join's representation)             *)
RECURSIVE Subst(_, _)
Subst(a, b) ==
  \/ a = b
  \/ b.k = "bottom"
  \/ a.k = b.k /\
     CASE a.k \in {"optional", "vec", "map", "nullable"} -> Subst(a.e, b.e)
       [] a.k = "tuple" -> Len(a.es) = Len(b.es) /\ \A i \in DOMAIN a.es : Subst(a.es[i], b.es[i])
       [] a.k = "struct" -> Len(a.f) = Len(b.f) /\ \A i \in DOMAIN a.f :
                               HasField(b, a.f[i].n) /\ Subst(a.f[i].s, FieldShape(b, a.f[i].n))
       [] OTHER -> FALSE
=============================================================================
