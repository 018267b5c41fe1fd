------------------------------ MODULE TypeAlloc ------------------------------
(***************************************************************************)
(* Types get declared one after the other: for every object structure that *)
(* is met, an earlier declaration is used again if it may stand in for it,  *)
(* and otherwise a new one with a fresh name is made. State: positions that *)
(* still need a type, declarations made so far, the type of every position. *)
(* TLC visits every document of up to Size members whose values come from a *)
(* pool (so every order of first encounter), for every language, and checks *)
(* that the finished program is what Targets.tla asks of generated programs. *)
(***************************************************************************)
EXTENDS Targets, TLC, Json

CONSTANTS Size, Emit
N(t) == [k |-> "num", t |-> t]
St == [k |-> "str", s |-> "s"]
A(xs) == [k |-> "arr", a |-> xs]
O(ms) == [k |-> "obj", m |-> ms]
M(n, v) == [n |-> n, v |-> v]
Nul == [k |-> "null"]
One == N("1")
Pool == <<
  One, A(<<>>), A(<<One, St>>), O(<<>>), O(<<M("x", One)>>), O(<<M("x", Nul)>>), O(<<M("x", One), M("y", St)>>),
  O(<<M("y", St), M("x", One)>>), A(<<O(<<M("x", One)>>), O(<<>>)>>), A(<<O(<<M("x", One)>>), O(<<M("x", Nul)>>)>>),
  A(<<O(<<M("x", One)>>), Nul>>), O(<<M("x", A(<<>>))>>), O(<<M("x", A(<<One>>))>>), O(<<M("x", O(<<M("x", One)>>))>>),
  O(<<M("b", O(<<M("x", Nul)>>))>>), A(<<O(<<M("x", A(<<>>))>>), O(<<>>)>>), A(<<O(<<M("x", One)>>), St>>) >>
MemberKeys == <<"a", "b", "c">>
Langs == {"rust", "ts", "tsa", "jackson", "kotlinx", "py", "schema", "zod"}
\* options that bear on member types
OptionsOf(l) == IF l = "rust" THEN {[usedef |-> u, allowvec |-> v] : u \in BOOLEAN, v \in BOOLEAN} ELSE {[usedef |-> FALSE, allowvec |-> FALSE]}

VARIABLES lang, opts, doc, pending, made, given
\* pending: seq of [p |-> path, s |-> structure, n |-> name wished for]; made: seq of [n, p, s]; given: path -> name
vars == <<lang, opts, doc, pending, made, given>>

RECURSIVE Tops(_, _, _)     \* the outermost objects at and below a position
Tops(s, p, n) ==
  CASE s.k \in {"optional", "nullable"} -> Tops(s.e, p, n)
    [] s.k \in {"vec", "map"} -> Tops(s.e, Append(p, "-"), n)
    [] s.k = "tuple" -> IF AsTuple(lang, s.es) THEN Concat([i \in DOMAIN s.es |-> Tops(s.es[i], Append(p, ToString(i)), n)])
                        ELSE Tops(JoinFold(s.es), Append(p, "-"), n)
    [] s.k = "struct" -> IF Inline(lang) \/ (s.f = <<>> /\ lang \in {"jackson", "kotlinx"}) THEN <<>> ELSE <<[p |-> p, s |-> s, n |-> n]>>
    [] OTHER -> <<>>
RootShape == ToJoin(Canon(<<doc>>, NoThreshold))
Init == /\ lang \in Langs /\ opts \in OptionsOf(lang)
        /\ doc = O(<<>>) /\ pending = <<>> /\ made = <<>> /\ given = <<>>
Grow == /\ given = <<>> /\ pending = <<>> /\ Len(doc.m) < Size
        /\ \E i \in DOMAIN Pool : doc' = O(Append(doc.m, M(MemberKeys[Len(doc.m) + 1], Pool[i])))
        /\ UNCHANGED <<lang, opts, pending, made, given>>
Start == /\ given = <<>> /\ pending = <<>>
         /\ pending' = Tops(RootShape, <<>>, "Root")
         /\ pending' # <<>>
         /\ UNCHANGED <<lang, opts, doc, made, given>>
Names == {made[i].n : i \in DOMAIN made}
Fresh(n) == IF n \notin Names THEN n ELSE FirstFree(n, Names, 2)
Declare ==
  /\ pending # <<>>
  /\ LET it == Head(pending)
         fit == {i \in DOMAIN made : Subst(made[i].s, it.s)}
     IN IF fit # {}
        THEN LET i == CHOOSE i \in fit : \A j \in fit : i <= j
             IN /\ given' = Append(given, [p |-> it.p, n |-> made[i].n])
                /\ pending' = Tail(pending) /\ UNCHANGED made
        ELSE LET n == Fresh(it.n)
             IN /\ made' = Append(made, [n |-> n, p |-> it.p, s |-> it.s])
                /\ given' = Append(given, [p |-> it.p, n |-> n])
                /\ pending' = Concat([i \in DOMAIN it.s.f |->
                       Tops(it.s.f[i].s, Append(it.p, it.s.f[i].n), UpperFirst(it.s.f[i].n))]) \o Tail(pending)
  /\ UNCHANGED <<lang, opts, doc>>
Next == Grow \/ Start \/ Declare

----------------------------------------------------------------------------
(* The program                                                             *)
NameAt(p) == given[CHOOSE i \in DOMAIN given : given[i].p = p].n
RECURSIVE Term(_, _)
PrimName(k) ==
  CASE lang = "rust" -> (CASE k = "bool" -> "bool" [] k = "string" -> "String" [] k = "integer" -> "i64" [] k = "floating" -> "f64")
    [] lang \in {"jackson", "kotlinx"} -> (CASE k = "bool" -> "Boolean" [] k = "string" -> "String" [] k = "integer" -> "Long" [] k = "floating" -> "Double")
    [] lang = "py" -> (CASE k = "bool" -> "bool" [] k = "string" -> "str" [] k = "integer" -> "int" [] k = "floating" -> "float")
    [] OTHER -> (CASE k = "bool" -> "boolean" [] k = "string" -> "string" [] OTHER -> "number")
FieldOf(x, p) ==
  LET o == x.s.k = "optional"
      s == Unopt(x.s)
      t == Term(s, Append(p, x.n))
      dflt == lang = "rust" /\ o /\ ~opts.usedef /\ ~opts.allowvec /\ IsListShape(s)
      wrapped == CASE lang \in {"ts", "tsa", "schema"} -> t
                   [] lang = "zod" -> IF o THEN [k |-> "undef", e |-> t] ELSE t
                   [] OTHER -> IF o /\ ~dflt /\ ~opts.usedef THEN [k |-> "opt", e |-> t] ELSE t
  IN [id |-> x.n, key |-> "", ren |-> FALSE, dflt |-> dflt, q |-> o /\ lang \in {"ts", "tsa", "schema"}, vis |-> "", t |-> wrapped, extra |-> <<>>]
Term(s, p) ==
  CASE s.k \in {"bool", "string", "integer", "floating"} -> [k |-> "prim", n |-> PrimName(s.k)]
    [] s.k = "nullable" -> [k |-> "opt", e |-> Term(s.e, p)]
    [] s.k = "vec" -> [k |-> "list", e |-> Term(s.e, Append(p, "-"))]
    [] s.k = "map" -> [k |-> "map", e |-> Term(s.e, Append(p, "-"))]
    [] s.k = "tuple" -> IF AsTuple(lang, s.es) THEN [k |-> "tuple", es |-> [i \in DOMAIN s.es |-> Term(s.es[i], Append(p, ToString(i)))]]
                        ELSE [k |-> "list", e |-> Term(JoinFold(s.es), Append(p, "-"))]
    [] s.k = "struct" -> IF Inline(lang) THEN [k |-> "obj", f |-> [i \in DOMAIN s.f |-> FieldOf(s.f[i], p)]]
                         ELSE IF s.f = <<>> /\ lang \in {"jackson", "kotlinx"} THEN [k |-> "emptymap"]
                         ELSE [k |-> "ref", n |-> NameAt(p)]
    [] OTHER -> [k |-> "any"]
ClassOf(d) == [k |-> "class", n |-> d.n, fields |-> [i \in DOMAIN d.s.f |-> FieldOf(d.s.f[i], d.p)], renall |-> "", dflt |-> opts.usedef,
               plain |-> <<>>, masked |-> FALSE]
Done == pending = <<>> /\ (given # <<>> \/ Tops(RootShape, <<>>, "Root") = <<>>)
Decls == LET cs == [i \in DOMAIN made |-> ClassOf(made[i])]
         IN IF Inline(lang) \/ "Root" \in Names THEN cs
            ELSE Append(cs, [k |-> "alias", n |-> "Root", t |-> Term(RootShape, <<>>), plain |-> <<>>, masked |-> FALSE])
E == [lang |-> lang, name |-> "Root", thr |-> NoThreshold, hints |-> <<>>,
      opts |-> [usedef |-> opts.usedef, allowvec |-> opts.allowvec, collect |-> FALSE],
      prog |-> [decls |-> Decls, used |-> <<>>, root |-> IF Inline(lang) THEN Term(RootShape, <<>>) ELSE [k |-> "none"]]]

Fit == Done => TypeMis(E, RootShape, Positions(E, RootShape)) = {}
Once == Done => SharingMis(E, Positions(E, RootShape)) = {}
Accepted == Done => SampleMis(E, <<doc>>) \subseteq {"any-absent"}
Complete == Done => NameMis(E) \subseteq (IF lang = "py" THEN {"undeclared"} ELSE {})
\* a declaration is exactly the structure of the position it was made for, and stands in for all the others
Exact == \A i \in DOMAIN made : \E j \in DOMAIN given : given[j].p = made[i].p /\ given[j].n = made[i].n
Vectors == (Emit /\ Done /\ lang = "rust" /\ ~opts.usedef /\ ~opts.allowvec /\ Len(doc.m) = Size) => PrintT("DOC " \o ToJson(doc))
=============================================================================
