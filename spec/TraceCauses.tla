---------------------------- MODULE TraceCauses ----------------------------
(* Recorded errors: said is the cause that is named ("other" if the words  *)
(* are not known, "none" if there was no error)                            *)
(*  json   b, said, map (a hint wants maps: may be named as soon as it is   *)
(*         met, before what is wrong later), part (an option looks at a     *)
(*         part of the sample and may not find it in a well-formed one)    *)
(*  part   val, unwrap, hints, said                                        *)
(*  fault  b, kind, status, cuts, end, said                                *)
(*  alike  es: errors with one and the same message                        *)
(*  stage  fails, source, b, said                                          *)
EXTENDS TraceBase, Causes

May(e) ==
  CASE e.k = "json" -> LET c == JsonCauses(e.b) IN IF c = {} /\ e.part THEN {"nomatch", "hint"} ELSE c \union (IF e.map THEN {"hint"} ELSE {})
    [] e.k = "part" -> PartCauses(e.val, e.unwrap, e.hints)
    [] e.k = "fault" -> TransferCauses(e.b, e.kind, e.status, e.cuts, e.end)
    [] OTHER -> StageCauses(Range(e.fails), e.source, e.b)
\* whether there has to be an error is decided elsewhere (C05 to C08, C20, C23)
Tags(e) ==
  IF e.said = "crash" THEN {"crash"}
  ELSE IF e.k = "alike" THEN IF \E c \in UNION {May(e.es[i]) : i \in DOMAIN e.es} : \A i \in DOMAIN e.es : c \in May(e.es[i]) THEN {} ELSE {"vague"}
  ELSE IF e.said \in {"none", "other"} THEN {}
  ELSE IF May(e) = {} THEN {"blamed"}
  ELSE IF e.said \in May(e) THEN {} ELSE {"misnamed"}
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
