----------------------------- MODULE TraceText -----------------------------
(* Samples as bytes, and what the code answered.                           *)
(* Event: b (bytes), res; with out (shape; keys as code points) if the     *)
(* structure is to be compared too; part |-> TRUE if an option looks at a  *)
(* part of the sample only, so that an error is not unexpected             *)
EXTENDS TraceBase, JsonText, Shapes

RECURSIVE DupKeys(_)
DupKeys(v) ==
  CASE v.k = "arr" -> \E i \in DOMAIN v.a : DupKeys(v.a[i])
    [] v.k = "obj" -> \/ Cardinality({v.m[i].n : i \in DOMAIN v.m}) < Len(v.m)
                      \/ \E i \in DOMAIN v.m : DupKeys(v.m[i].v)
    [] OTHER -> FALSE

\* the reported structure marks optional members with a "?" after the key
RECURSIVE Marked(_)
Marked(v) ==
  CASE v.k = "arr" -> \E i \in DOMAIN v.a : Marked(v.a[i])
    [] v.k = "obj" -> \E i \in DOMAIN v.m : (v.m[i].n # <<>> /\ Last(v.m[i].n) = 63) \/ Marked(v.m[i].v)
    [] OTHER -> FALSE

Tags(e) ==
  LET q == Read(e.b)
  IN IF e.res = "crash" THEN {"crash"}
     ELSE IF q.m # "end" THEN (IF e.res = "err" THEN {} ELSE {"accepted"})
     ELSE IF e.res = "err" THEN (IF e.part THEN {} ELSE {"rejected"})
     ELSE IF e.out.k = "none" \/ DupKeys(q.v) \/ Marked(q.v) THEN {}
     ELSE IF Norm(ToJoin(e.out)) = CanonNorm(<<q.v>>, -1) THEN {} ELSE {"misread"}

TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
