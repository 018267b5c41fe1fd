----------------------------- MODULE TraceInfer -----------------------------
(* Recorded inference results against the specification.                   *)
(* Event: val (the sample), unwrap, hints <<[p, t]>>, thr, res, out (shape) *)
EXTENDS TraceBase, Pointers, Tightness

FromOut(s) == Norm(ToJoin(s))     \* the reported shape has the o flags
RECURSIVE WellFormed(_)
WellFormed(s) ==
  CASE s.k \in {"vec", "map", "nullable"} -> WellFormed(s.e)
    [] s.k = "tuple" -> Len(s.es) \in TupleMin..TupleMax /\ \A i \in DOMAIN s.es : WellFormed(s.es[i])
    [] s.k = "struct" -> /\ \A i, j \in DOMAIN s.f : s.f[i].n = s.f[j].n => i = j
                         /\ \A i \in DOMAIN s.f : WellFormed(s.f[i].s)
    [] OTHER -> s.k \in {"bottom", "any", "null", "bool", "string", "integer", "floating", "opaque"}

\* every member that occurs is there, and no other
RECURSIVE MembersMatch(_, _)
MembersMatch(out, want) ==
  CASE out.k = "struct" /\ want.k = "struct" ->
         DOMAIN out.m = DOMAIN want.m /\ \A key \in DOMAIN out.m : MembersMatch(out.m[key].s, want.m[key].s)
    [] out.k \in {"vec", "map", "nullable"} /\ want.k = out.k -> MembersMatch(out.e, want.e)
    [] out.k = "nullable" /\ want.k # "nullable" -> MembersMatch(out.e, want)
    [] out.k # "nullable" /\ want.k = "nullable" -> MembersMatch(out, want.e)
    [] out.k = "tuple" /\ want.k = "tuple" /\ Len(out.es) = Len(want.es) ->
         \A i \in DOMAIN out.es : MembersMatch(out.es[i], want.es[i])
    [] OTHER -> TRUE

\* two samples that are permutations of each other
SameTags(e) ==
  IF e.res # "ok" \/ e.res2 # "ok" THEN {"rejected"}
  ELSE IF FromOut(e.out) = FromOut(e.out2) THEN {} ELSE {"order"}

Tags(e) ==
  LET ob == Observed(e.val, e.unwrap, e.hints)
  IN IF e.res = "crash" THEN {"crash"}
     ELSE IF ob.err THEN (IF e.res = "err" THEN {} ELSE {"accepted"})
     ELSE IF e.res # "ok" THEN {"rejected"}
     ELSE IF Ambiguous(ob.vs, e.thr) THEN {}
     ELSE IF ~WellFormed(e.out) THEN {"malformed"}
     ELSE LET out == FromOut(e.out)
              want == CanonNorm(ob.vs, e.thr)
              strict == \A i \in DOMAIN ob.vs : Admits(out, ob.vs[i])
              lenient == \A i \in DOMAIN ob.vs : AdmitsButAny(out, ob.vs[i])
          IN (IF strict THEN {} ELSE IF lenient THEN {"any-absent"} ELSE {"not-admitted"})
             \union (IF out = want THEN {} ELSE {"not-canonical"})
             \union (IF lenient /\ out # want THEN {"loose"} ELSE {})
             \union (IF MembersMatch(out, want) THEN {} ELSE {"members"})
            \union (IF Tight(out, ob.vs, e.thr) THEN {} ELSE {"not-tight"})

TNext == Consume /\ Report(Trace[pos], IF Trace[pos].k = "same" THEN SameTags(Trace[pos]) ELSE Tags(Trace[pos]))
=============================================================================
