---------------------------- MODULE TraceTargets ----------------------------
(* Programs generated by the code for recorded samples.                    *)
EXTENDS TraceBase, Pointers, Targets

\* what a round trip through the generated types gives back: the sample, plus null or [] (with use_default_for_missing_fields:
\* default values) where members were absent
RECURSIVE IsDefault(_)
IsDefault(w) ==
  CASE w.k = "null" -> TRUE
    [] w.k = "bool" -> ~w.b
    [] w.k = "num" -> w.t \in {"0", "0.0"}
    [] w.k = "str" -> w.s = ""
    [] w.k = "arr" -> \A i \in DOMAIN w.a : IsDefault(w.a[i])        \* a tuple of defaults
    [] OTHER -> \A i \in DOMAIN w.m : IsDefault(w.m[i].v)
RECURSIVE GivesBack(_, _, _)
GivesBack(v, w, ud) ==
  CASE v.k = "arr" -> w.k = "arr" /\ Len(w.a) = Len(v.a) /\ \A i \in DOMAIN v.a : GivesBack(v.a[i], w.a[i], ud)
    [] v.k = "obj" -> /\ w.k = "obj"
                      /\ \A i \in DOMAIN v.m : v.m[i].n \in Keys(w) /\ GivesBack(v.m[i].v, Get(w, v.m[i].n), ud)
                      /\ \A i \in DOMAIN w.m : w.m[i].n \in Keys(v) \/ w.m[i].v = [k |-> "null"] \/ w.m[i].v = [k |-> "arr", a |-> <<>>]
                                               \/ (ud /\ IsDefault(w.m[i].v))
    [] OTHER -> v = w

RunTags(e) ==      \* what compilers and libraries said about the very output
  (IF e.k # "run" \/ e.run.res = "none" THEN {}
   ELSE IF e.run.res = "compile" THEN {"does-not-compile"}
   ELSE IF e.run.res = "load" THEN {"does-not-load"}
   ELSE IF e.run.res = "reject" THEN (IF e.anyabsent THEN {"any-absent"} ELSE IF e.inherited THEN {"inherited-member"} ELSE {"sample-rejected"})
   ELSE IF e.run.res = "back" THEN (IF GivesBack(e.val, e.run.back, e.usedef) THEN {} ELSE {"not-given-back"})
   ELSE {})

Tags(e) ==
  LET ob == Observed(e.val, e.unwrap, e.hints)
  IN IF e.res = "crash" THEN {"crash"}
     ELSE IF ob.err THEN (IF e.res = "err" THEN {} ELSE {"accepted"})
     ELSE IF e.res # "ok" THEN {"rejected"}
     ELSE IF Ambiguous(ob.vs, e.thr) THEN {}
     ELSE IF ~e.prog.ok THEN {"syntax"}
     ELSE LET S == ToJoin(Canon(ob.vs, e.thr))
              P == Positions(e, S)
          IN TypeMis(e, S, P) \union SharingMis(e, P) \union NameMis(e) \union ImportMis(e)
             \union UNION {IF e.prog.decls[i].k = "class" THEN FieldMis(e, e.prog.decls[i]) ELSE {} : i \in DOMAIN e.prog.decls}
             \union (IF e.lang = "rust" THEN OptionMis(e) ELSE IF e.lang \in {"jackson", "kotlinx"} THEN KotlinMis(e) ELSE {})
             \union (IF e.lang = "rust" /\ e.opts.deny /\ e.opts.collect THEN {} ELSE SampleMis(e, ob.vs))
             \union (IF e.prog.other = <<>> THEN {} ELSE {"other"})

TNext == Consume /\ Report(Trace[pos], IF Trace[pos].k = "run" THEN RunTags(Trace[pos]) ELSE Tags(Trace[pos]))
=============================================================================
