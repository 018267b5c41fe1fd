------------------------------- MODULE Targets -------------------------------
(***************************************************************************)
(* Generated programs, and what they have to do with the inferred structure *)
(* and with the sample.                                                    *)
(*                                                                         *)
(* Languages  rust, ts (interfaces), tsa (type alias), jackson, kotlinx,   *)
(*            py, schema, zod                                              *)
(* Terms      [k|->"prim", n] [k|->"any"] [k|->"list", e] [k|->"tuple", es] *)
(*            [k|->"map", e] [k|->"opt", e] (or null) [k|->"undef", e] (or  *)
(*            absent) [k|->"ref", n] [k|->"obj", f]  [k|->"bad"]           *)
(*            [k|->"emptymap"] (any object; Kotlin has no empty data class) *)
(* Fields     [id, key, ren, dflt, q, vis, t, extra]                       *)
(*            ren: key is given by an annotation; dflt: absent means the   *)
(*            default value; q: marked as possibly absent                  *)
(* Programs   [decls, root, ...], decls a seq of                           *)
(*            [k|->"class", n, fields, ...] and [k|->"alias", n, t]        *)
(* Structures are in the join's representation (members: "optional").      *)
(***************************************************************************)
EXTENDS Shapes, Naming

Inline(l) == l \in {"tsa", "schema", "zod"}      \* no named nested types
Ks(es) == {es[i].k : i \in DOMAIN es}
PrimFits(l, k, n) ==
  CASE l = "rust" -> n = (CASE k = "bool" -> "bool" [] k = "string" -> "String" [] k = "integer" -> "i64" [] k = "floating" -> "f64")
    [] l \in {"jackson", "kotlinx"} ->
         n = (CASE k = "bool" -> "Boolean" [] k = "string" -> "String" [] k = "integer" -> "Long" [] k = "floating" -> "Double")
    [] l = "py" -> n = (CASE k = "bool" -> "bool" [] k = "string" -> "str" [] k = "integer" -> "int" [] k = "floating" -> "float")
    [] OTHER -> \/ n = (CASE k = "bool" -> "boolean" [] k = "string" -> "string" [] OTHER -> "number")
                \/ l = "schema" /\ k = "integer" /\ n = "integer"
\* Kotlin has no tuples beyond Triple
MaxTuple(l) == IF l \in {"jackson", "kotlinx"} THEN 3 ELSE TupleMax
AsTuple(l, es) == IsTuple(es) /\ Len(es) <= MaxTuple(l)
\* structures that are collections of any length
IsListShape(s) == s.k = "vec" \/ (s.k = "tuple" /\ ~IsTuple(s.es))
\* the single-expression outputs apply the threshold to merged members, too
RecordInstead(e, s) == e.lang \in {"tsa", "zod"} /\ e.thr >= 0 /\ Len(s.f) > e.thr
MergedMembers(s) == Unopt(JoinFold([i \in DOMAIN s.f |-> s.f[i].s]))

HasDecl(e, n) == \E i \in DOMAIN e.prog.decls : e.prog.decls[i].n = n
Decl(e, n) == e.prog.decls[CHOOSE i \in DOMAIN e.prog.decls : e.prog.decls[i].n = n]
IsClass(e, t) == t.k = "ref" /\ HasDecl(e, t.n) /\ Decl(e, t.n).k = "class"

\* the key a field is bound to
EffKey(e, d, f) ==
  IF f.ren THEN f.key
  ELSE CASE e.lang = "rust" -> SerdeRename(d.renall, BareRust(f.id))
         [] e.lang = "jackson" -> JacksonRename(d.renall, f.id)
         [] OTHER -> f.id
EffKeys(e, d) == [i \in DOMAIN d.fields |-> EffKey(e, d, d.fields[i])]

----------------------------------------------------------------------------
(* Does a term say exactly what a structure says? (Tags of what is wrong.) *)
(* Below a reference the declaration is looked at on its own.              *)
RECURSIVE Shallow(_, _, _)
MemberMis(e, f, x) ==     \* field f against member structure x
  LET o == x.k = "optional"
      s == Unopt(x)
      plain == Shallow(e, f.t, s)
      orMissing == IF f.t.k = "opt" THEN Shallow(e, f.t.e, s) ELSE {"optional"}
  IN IF e.lang \in {"ts", "tsa", "schema"} THEN plain \union (IF f.q = o THEN {} ELSE {"optional"})
     ELSE IF e.lang = "zod" THEN (IF o THEN (IF f.t.k = "undef" THEN Shallow(e, f.t.e, s) ELSE {"optional"}) ELSE plain)
     ELSE IF e.lang = "rust" THEN
       LET wantDefault == o /\ ~e.opts.usedef /\ ~e.opts.allowvec /\ IsListShape(s)
       IN (IF f.dflt = wantDefault THEN {} ELSE {"default"})
          \union (IF ~o \/ e.opts.usedef \/ wantDefault THEN plain ELSE orMissing)
     ELSE IF o THEN orMissing ELSE plain
MembersMis(e, d, s) ==
  LET ks == EffKeys(e, d)
      want == {s.f[i].n : i \in DOMAIN s.f}
  IN IF {ks[i] : i \in DOMAIN ks} # want \/ Len(ks) # Len(s.f) THEN {"members"}
     ELSE UNION {MemberMis(e, d.fields[i], FieldShape(s, ks[i])) : i \in DOMAIN ks}
Shallow(e, t, s) ==
  CASE s.k \in {"any", "null", "bottom"} -> IF t.k = "any" THEN {} ELSE {"type"}
    [] s.k \in {"bool", "string", "integer", "floating"} ->
         IF t.k = "prim" /\ PrimFits(e.lang, s.k, t.n) THEN {} ELSE IF t.k = "opt" THEN {"null"} ELSE {"type"}
    [] s.k = "opaque" -> IF t.k = "ref" /\ t.n = s.n THEN {} ELSE {"type"}
    [] s.k = "nullable" -> IF t.k = "opt" THEN Shallow(e, t.e, s.e) ELSE {"null"}
    [] s.k = "vec" -> IF t.k = "list" THEN Shallow(e, t.e, s.e) ELSE {"type"}
    [] s.k = "map" -> IF t.k = "map" THEN Shallow(e, t.e, s.e) ELSE {"type"}
    [] s.k = "tuple" ->
         IF AsTuple(e.lang, s.es)
         THEN (IF t.k = "tuple" /\ Len(t.es) = Len(s.es) THEN UNION {Shallow(e, t.es[i], s.es[i]) : i \in DOMAIN s.es} ELSE {"type"})
         ELSE (IF t.k = "list" THEN Shallow(e, t.e, JoinFold(s.es)) ELSE {"type"})
    [] s.k = "struct" ->
         IF RecordInstead(e, s) THEN (IF t.k = "map" THEN Shallow(e, t.e, MergedMembers(s)) ELSE {"type"})
         ELSE IF Inline(e.lang) THEN (IF t.k = "obj" THEN MembersMis(e, [fields |-> t.f, renall |-> ""], s) ELSE {"type"})
         ELSE IF s.f = <<>> /\ e.lang \in {"jackson", "kotlinx"} THEN (IF t.k = "emptymap" THEN {} ELSE {"type"})
         ELSE IF IsClass(e, t) THEN {} ELSE {"type"}
    [] OTHER -> {"type"}

----------------------------------------------------------------------------
(* The positions at which a declared type is used: [n |-> name, s |-> structure] *)
Bare(t) == IF t.k \in {"opt", "undef"} THEN t.e ELSE t
RECURSIVE Strip(_)
Strip(t) == IF t.k \in {"opt", "undef"} THEN Strip(t.e) ELSE t
StripS(s) == LET a == IF s.k = "optional" THEN s.e ELSE s IN IF a.k = "nullable" THEN a.e ELSE a
RECURSIVE Walk(_, _, _)
Walk(e, t0, s0) ==
  LET t == Strip(t0)
      s == StripS(s0)
  IN CASE s.k = "struct" /\ IsClass(e, t) ->
            LET d == Decl(e, t.n)
                ks == EffKeys(e, d)
            IN {[n |-> t.n, s |-> s]}
               \union UNION {IF HasField(s, ks[i]) THEN Walk(e, d.fields[i].t, FieldShape(s, ks[i])) ELSE {} : i \in DOMAIN ks}
       [] s.k = "vec" /\ t.k = "list" -> Walk(e, t.e, s.e)
       [] s.k = "map" /\ t.k = "map" -> Walk(e, t.e, s.e)
       [] s.k = "tuple" /\ t.k = "list" -> Walk(e, t.e, JoinFold(s.es))
       [] s.k = "tuple" /\ t.k = "tuple" /\ Len(t.es) = Len(s.es) -> UNION {Walk(e, t.es[i], s.es[i]) : i \in DOMAIN s.es}
       [] OTHER -> {}

RootTerm(e) ==
  IF Inline(e.lang) THEN e.prog.root
  ELSE IF ~HasDecl(e, e.name) THEN [k |-> "bad"]
  ELSE LET d == Decl(e, e.name) IN IF d.k = "alias" THEN d.t ELSE [k |-> "ref", n |-> e.name]

\* every declared class says exactly what one of its positions says, and that may stand in for the others
DeclMis(e, d, P) ==
  LET mine == {p.s : p \in {q \in P : q.n = d.n}}
      exact == {s \in mine : MembersMis(e, d, s) = {}}
  IN IF mine = {} THEN {}
     ELSE IF \E s \in exact : \A s2 \in mine : Subst(s, s2) THEN {}
     ELSE IF exact # {} THEN {"shared"}
     ELSE UNION {MembersMis(e, d, s) : s \in mine} \union (IF Cardinality(mine) > 1 THEN {"shared"} ELSE {})
Positions(e, S) == Walk(e, RootTerm(e), S)
TypeMis(e, S, P) ==
  Shallow(e, RootTerm(e), S)
  \union UNION {IF e.prog.decls[i].k = "class" THEN DeclMis(e, e.prog.decls[i], P) ELSE {} : i \in DOMAIN e.prog.decls}
SharingMis(e, P) ==
  IF \E p, q \in P : p.n # q.n /\ Subst(p.s, q.s) /\ Subst(q.s, p.s) THEN {"declared-twice"} ELSE {}

----------------------------------------------------------------------------
(* Does the program take the sample? By the rules of the library or        *)
(* compiler that would read it, on the program alone. la: members without  *)
(* any type information count as optional (known finding).                 *)
RECURSIVE Accepts(_, _, _, _)
MayMiss(e, d, f, la) ==
  CASE e.lang = "rust" -> f.t.k = "opt" \/ f.dflt \/ d.dflt \/ (la /\ f.t.k = "any")
    [] e.lang \in {"ts", "tsa", "schema"} -> f.q \/ (la /\ f.t.k = "any")
    [] e.lang = "zod" -> f.t.k = "undef" \/ f.t.k = "any"
    [] OTHER -> f.t.k = "opt" \/ f.t.k = "any"
AcceptsObj(e, d, v, la) ==
  LET ks == EffKeys(e, d)
  IN /\ v.k \in {"obj", "mobj"}
     /\ \A i, j \in DOMAIN ks : ks[i] = ks[j] => i = j
     /\ \A i \in DOMAIN v.m : \E j \in DOMAIN ks : ks[j] = v.m[i].n     \* bound: nothing of the sample gets lost
     /\ \A j \in DOMAIN ks : IF ks[j] \in Keys(v) THEN Accepts(e, d.fields[j].t, Get(v, ks[j]), la) ELSE MayMiss(e, d, d.fields[j], la)
Accepts(e, t, v, la) ==
  CASE v.k = "op" -> TRUE
    [] t.k = "any" -> TRUE
    [] t.k = "emptymap" -> v.k \in {"obj", "mobj"} /\ \A i \in DOMAIN v.m : v.m[i].v.k # "null"
    [] t.k = "opt" -> v.k = "null" \/ Accepts(e, t.e, v, la)
    [] t.k = "undef" -> Accepts(e, t.e, v, la)
    [] t.k = "prim" ->
         CASE t.n \in {"bool", "boolean", "Boolean"} -> v.k = "bool"
           [] t.n \in {"String", "string", "str"} -> v.k = "str"
           [] t.n \in {"i64", "Long", "int", "integer"} -> v.k = "num" /\ IsInteger(v.t)
           [] t.n \in {"f64", "Double", "float", "number"} -> v.k = "num"
           [] OTHER -> FALSE
    [] t.k = "list" -> v.k = "arr" /\ \A i \in DOMAIN v.a : Accepts(e, t.e, v.a[i], la)
    [] t.k = "tuple" -> v.k = "arr" /\ Len(v.a) = Len(t.es) /\ \A i \in DOMAIN v.a : Accepts(e, t.es[i], v.a[i], la)
    [] t.k = "map" -> v.k \in {"obj", "mobj"} /\ \A i \in DOMAIN v.m : Accepts(e, t.e, v.m[i].v, la)
    [] t.k = "obj" -> AcceptsObj(e, [fields |-> t.f, renall |-> "", dflt |-> FALSE], v, la)
    [] t.k = "ref" -> IF IsClass(e, t) THEN AcceptsObj(e, Decl(e, t.n), v, la) ELSE ~HasDecl(e, t.n)
    [] OTHER -> FALSE
SampleMis(e, vs) ==
  LET t == RootTerm(e)
      strict == \A i \in DOMAIN vs : Accepts(e, t, vs[i], FALSE)
      lenient == \A i \in DOMAIN vs : Accepts(e, t, vs[i], TRUE)
  IN IF strict THEN {} ELSE IF lenient THEN {"any-absent"} ELSE {"sample-rejected"}

----------------------------------------------------------------------------
(* Names                                                                   *)
RECURSIVE RefsOf(_)
RefsOf(t) ==
  CASE t.k = "ref" -> {t.n}
    [] t.k \in {"list", "map", "opt", "undef"} -> RefsOf(t.e)
    [] t.k = "tuple" -> UNION {RefsOf(t.es[i]) : i \in DOMAIN t.es}
    [] t.k = "obj" -> UNION {RefsOf(t.f[i].t) : i \in DOMAIN t.f}
    [] OTHER -> {}
DeclRefs(d) == IF d.k = "alias" THEN RefsOf(d.t) ELSE UNION {RefsOf(d.fields[i].t) : i \in DOMAIN d.fields}
RECURSIVE ReachFrom(_, _)
ReachFrom(e, names) ==
  LET more == names \union UNION {IF HasDecl(e, n) THEN DeclRefs(Decl(e, n)) ELSE {} : n \in names}
  IN IF more = names THEN names ELSE ReachFrom(e, more)
DeclNames(e) == {e.prog.decls[i].n : i \in DOMAIN e.prog.decls}
\* members that were not in the sample are collected by Serde and by Jackson; Kotlinx has no means for it
Collects(e) == e.opts.collect /\ e.lang \in {"rust", "jackson"}
FieldMis(e, d) ==
  LET ids == [i \in DOMAIN d.fields |-> d.fields[i].id]
      ks == EffKeys(e, d)
      reserved == IF Collects(e) THEN (IF e.lang = "rust" THEN {"additional_fields"} ELSE {"additionalFields"}) ELSE {}
  IN (IF \A i \in DOMAIN ids : LegalField(e.lang, ids[i]) THEN {} ELSE {"illegal-member"})
     \union (IF \A i, j \in DOMAIN ids : ids[i] = ids[j] => i = j THEN {} ELSE {"same-member"})
     \union (IF \A i \in DOMAIN ids : ids[i] \notin reserved THEN {} ELSE {"same-member"})
     \union (IF \A i, j \in DOMAIN ks : ks[i] = ks[j] => i = j THEN {} ELSE {"same-key"})
OpaqueNames(e) == {e.hints[i].t : i \in DOMAIN e.hints}
NameMis(e) ==
  LET ds == e.prog.decls
      names == DeclNames(e)
      refs == UNION {DeclRefs(ds[i]) : i \in DOMAIN ds} \union RefsOf(e.prog.root)
  IN (IF \A i, j \in DOMAIN ds : ds[i].n = ds[j].n => i = j THEN {} ELSE {"duplicate-declaration"})
     \union (IF \A n \in names : LegalType(e.lang, n) THEN {} ELSE {"illegal-name"})
     \union (IF refs \subseteq names \union OpaqueNames(e) THEN {} ELSE {"undeclared"})
     \union (IF Inline(e.lang) \/ e.name \in names THEN {} ELSE {"no-root"})
     \union (IF names \subseteq ReachFrom(e, {e.name}) THEN {} ELSE {"unreachable"})
     \union (IF names \intersect {e.prog.used[i] : i \in DOMAIN e.prog.used} = {} THEN {} ELSE {"shadows"})
     \union (IF e.lang = "py" THEN
               UNION {LET d == ds[i] IN
                 (IF \A n \in {d.plain[j] : j \in DOMAIN d.plain} : n \in OpaqueNames(e) \/ \E k \in 1..(i - 1) : ds[k].n = n
                  THEN {} ELSE {"undeclared"})
                 \union (IF d.masked THEN {"shadows"} ELSE {})
                 : i \in DOMAIN ds}
             ELSE {})

(* Imports: every library item the code uses is written as the import style says *)
LastSegment(s, sep) ==
  LET RECURSIVE last(_, _)
      last(i, p) == LET j == Find(s, sep, i) IN IF j = 0 THEN SubSeq(s, p, Len(s)) ELSE last(j + 1, j + 1)
  IN last(1, 1)
ImportMis(e) ==
  LET libs == e.prog.libs         \* [f |-> full path, w |-> as written]
      imps == {e.prog.imports[i] : i \in DOMAIN e.prog.imports}
      style == e.opts.style
      sep == IF e.lang = "rust" THEN ":" ELSE "."
      short(f) == LastSegment(f, sep)
      qualifiable == {libs[i].f : i \in {j \in DOMAIN libs : libs[j].f # short(libs[j].f)}}
      module(f) == SubSeq(f, 1, Len(f) - Len(short(f)) - 1)
  IN IF e.lang \notin {"rust", "jackson", "kotlinx", "py"} THEN (IF imps = {} THEN {} ELSE {"imports"})
     ELSE (IF \A i \in DOMAIN libs : libs[i].w = (IF style = "qualified_paths" THEN libs[i].f ELSE short(libs[i].f))
           THEN {} ELSE {"imports"})
          \union (CASE style = "add_imports" -> IF qualifiable \subseteq imps
                                                   /\ imps \subseteq qualifiable \union {e.opts.derives[i] : i \in DOMAIN e.opts.derives}
                                                THEN {} ELSE {"imports"}
                    [] style = "assume_existing" -> IF imps = {} THEN {} ELSE {"imports"}
                    [] OTHER -> IF imps = (IF e.lang = "py" THEN {module(f) : f \in qualifiable} ELSE {}) THEN {} ELSE {"imports"})

----------------------------------------------------------------------------
(* Options for Rust                                                        *)
OptionMis(e) ==
  LET ds == e.prog.decls
      o == e.opts
      cls == {i \in DOMAIN ds : ds[i].k = "class"}
      shorten(p) == IF o.style = "qualified_paths" THEN p ELSE LastSegment(p, ":")
  IN (IF \A i \in cls : ds[i].derives = [j \in DOMAIN o.derives |-> shorten(o.derives[j])] THEN {} ELSE {"derives"})
     \union (IF \A i \in DOMAIN ds : ds[i].vis = o.tvis THEN {} ELSE {"type-visibility"})
     \union (IF \A i \in cls : \A j \in DOMAIN ds[i].fields : ds[i].fields[j].vis = o.fvis THEN {} ELSE {"field-visibility"})
     \union (IF \A i \in cls : ds[i].deny = o.deny THEN {} ELSE {"deny-unknown-fields"})
     \union (IF \A i \in cls : ds[i].dflt = o.usedef THEN {} ELSE {"use-default"})
     \union (IF \A i \in cls : ds[i].collect = o.collect THEN {} ELSE {"collect-additional"})
     \union (IF \A i \in cls : ds[i].renall = (IF o.fmt = "none" THEN "" ELSE o.fmt) \/ (o.fmt = "snake_case" /\ ds[i].renall = "")
             THEN {} ELSE {"rename-all"})
     \union (IF \A i \in cls : ds[i].extra = <<>> /\ \A j \in DOMAIN ds[i].fields : ds[i].fields[j].extra = <<>> THEN {} ELSE {"attributes"})
KotlinMis(e) ==
  LET ds == e.prog.decls
      cls == {i \in DOMAIN ds : ds[i].k = "class"}
      strat == IF e.lang = "jackson" THEN JacksonStrategyOf(e.opts.fmt) ELSE ""
  IN (IF \A i \in cls : ds[i].renall = strat THEN {} ELSE {"naming-strategy"})
     \union (IF \A i \in cls : ds[i].serializable = (e.lang = "kotlinx") THEN {} ELSE {"attributes"})
     \union (IF \A i \in cls : ds[i].collect = Collects(e) THEN {} ELSE {"collect-additional"})
     \union (IF \A i \in cls : ds[i].extra = <<>> /\ \A j \in DOMAIN ds[i].fields : ds[i].fields[j].extra = <<>> THEN {} ELSE {"attributes"})
=============================================================================
