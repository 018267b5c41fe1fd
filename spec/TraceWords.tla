----------------------------- MODULE TraceWords -----------------------------
(***************************************************************************)
(* Names in programs that the code has generated. An event is that of      *)
(* TraceTargets; cps gives the code points of the keys that occur in it.   *)
(* The program is walked from its root, members in order: the first place  *)
(* where a type is met is where it got its name.                           *)
(***************************************************************************)
EXTENDS TraceBase, Words, Targets

CodeOf == [c \in Alnum \union {"_"} |-> IF c = "_" THEN 95 ELSE IF c \in Lowers THEN 96 + (CHOOSE i \in 1..26 : LowerSeq[i] = c)
                                      ELSE IF c \in Uppers THEN 64 + (CHOOSE i \in 1..26 : UpperSeq[i] = c)
                                      ELSE 47 + (CHOOSE i \in 1..10 : DigitSeq[i] = c)]
Ascii(s) == [i \in 1..Len(s) |-> CodeOf[Ch(s, i)]]
Cp(e, s) == IF AllChars(s, Alnum \union {"_"}) THEN Ascii(s)
            ELSE IF \E i \in DOMAIN e.cps : e.cps[i].s = s THEN e.cps[CHOOSE i \in DOMAIN e.cps : e.cps[i].s = s].c
            ELSE <<0>>
\* what the language or its libraries take; whether a name must be avoided is decided by C17 and C18
Languages == {"rust", "jackson", "kotlinx", "py", "ts"}
AvoidMembers == [lang \in Languages |-> LET names ==
  CASE lang = "rust" -> RustKeywords \union {"alignof", "offsetof", "proc", "pure", "sizeof", "union"}
    [] lang \in {"jackson", "kotlinx"} -> KotlinKeywords
    [] OTHER -> PythonKeywords \union BaseModelAttributes \union {"bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing"}
  IN {Ascii(w) : w \in names}]
AvoidTypes == [lang \in Languages |-> {Ascii(w) : w \in
  CASE lang = "rust" -> {"Self"} [] lang = "py" -> {"True", "False", "None"} [] OTHER -> {}}]
CapN == 78
SmallN == 110
Library == [lang \in Languages |-> {Ascii(w) : w \in
  CASE lang = "rust" -> {"HashMap", "Option", "String", "Value", "Vec"}
    [] lang \in {"jackson", "kotlinx"} -> {"Any", "Boolean", "Double", "JsonAnyGetter", "JsonAnySetter", "JsonNaming", "JsonProperty", "List", "Long",
                                          "Map", "Pair", "PropertyNamingStrategies", "SerialName", "Serializable", "String", "Triple"}
    [] lang = "py" -> {"Any", "BaseModel", "Field", "Optional"}
    [] OTHER -> {}}]
TakenTypes(e) ==
  Library[e.lang] \union
  {Cp(e, n) : n \in DeclNames(e) \union {e.name} \union {e.prog.used[i] : i \in DOMAIN e.prog.used}
                   \union {LastSegment(e.opts.derives[i], ":") : i \in DOMAIN e.opts.derives}}
TypeFits(e, n, path) ==
  \E b \in Plain(PascalWords(path), TypeWord, AvoidTypes[e.lang], IF e.lang \in {"ts", "py"} THEN CapN ELSE SmallN) :
     Numbered(Cp(e, n), b, TakenTypes(e))
Style(lang, key) == IF lang \in {"jackson", "kotlinx"} THEN LowFirst(PascalWords(key)) ELSE Snake(key)
MemberFits(e, d, i, key) ==
  LET taken == {Cp(e, BareRust(d.fields[j].id)) : j \in DOMAIN d.fields \ {i}}
               \union (IF Collects(e) THEN {Cp(e, IF e.lang = "rust" THEN "additional_fields" ELSE "additionalFields")} ELSE {})
  IN \E b \in Plain(Style(e.lang, key), FieldWord, AvoidMembers[e.lang], SmallN) : Numbered(Cp(e, d.fields[i].id), b, taken)

RECURSIVE Visit(_, _, _, _), VisitAll(_, _, _, _)
\* st: the declarations met so far, what is wrong
VisitAll(e, todo, i, st) == IF i > Len(todo) THEN st ELSE VisitAll(e, todo, i + 1, Visit(e, todo[i].t, todo[i].p, st))
Visit(e, t, path, st) ==
  CASE t.k \in {"opt", "undef"} -> Visit(e, t.e, path, st)
    [] t.k \in {"list", "map"} -> Visit(e, t.e, Singular(path), st)
    [] t.k = "tuple" -> VisitAll(e, [i \in DOMAIN t.es |-> [t |-> t.es[i], p |-> path]], 1, st)
    [] t.k = "ref" /\ IsClass(e, t) /\ t.n \notin st.seen ->
         LET d == Decl(e, t.n)
             ks == EffKeys(e, d)
             mine == (IF TypeFits(e, t.n, path) THEN {} ELSE {"type-name"})
                     \union (IF e.lang = "ts" \/ \A i \in DOMAIN ks : MemberFits(e, d, i, Cp(e, ks[i])) THEN {} ELSE {"member-name"})
         IN VisitAll(e, [i \in DOMAIN ks |-> [t |-> d.fields[i].t, p |-> Cp(e, ks[i])]], 1, [seen |-> st.seen \union {t.n}, mis |-> st.mis \union mine])
    [] OTHER -> st
Tags(e) ==
  IF e.res # "ok" THEN {"no-code"}
  ELSE IF ~e.prog.ok \/ ~HasDecl(e, e.name) THEN {"no-program"}
  ELSE Visit(e, RootTerm(e), Cp(e, e.name), [seen |-> {}, mis |-> {}]).mis
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
