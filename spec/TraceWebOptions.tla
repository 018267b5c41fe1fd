-------------------------- MODULE TraceWebOptions --------------------------
(* k = "request": what the page's controls held (s), what the library's    *)
(* entry point for the page gave for the message the page sent (res), and  *)
(* what the library gives for the options the controls name (lib).         *)
(* pass = "expect": only say what the controls ask for.                    *)
(* k = "offers": the values a control offers, and the one it starts with.  *)
(* k = "same": two sessions that may not differ. k = "copy": a copy of     *)
(* what is shown. k = "example": an example the page offers.               *)
EXTENDS TraceBase, WebOptions, OptionValues, SequencesExt
Tell(e) == LET a == Asked(e.s)
           IN PrintT("EXPECT " \o ToJson([id |-> e.id, ok |-> Accepted(a), flags |-> {f \in Flags : a.o.flags[f]}, texts |-> Given(a.o.texts), hints |-> a.o.hints]))
Request(e) ==
  IF e.res.k = "none" THEN {"no-request"}
  ELSE IF e.res.k = "crash" THEN {"crash"}
  ELSE IF ~Accepted(Asked(e.s)) THEN (IF e.res.k = "err" THEN {} ELSE {"accepts-bad-options"})
  ELSE IF e.res.k # e.lib.k THEN {IF e.lib.k = "ok" THEN "rejects-what-the-controls-say" ELSE "accepts-what-the-library-rejects"}
  ELSE IF e.res.k = "ok" /\ e.res.out # e.lib.out THEN {"differs-from-the-library"} ELSE {}
\* every value on offer is one the library knows, and every language of the library is on offer
Offers(e) ==
  LET x == e.option
  IN {"offers-unknown-value" : v \in {v \in ToSet(e.values) : v \notin Known(x) /\ ~(x \in Blank /\ v = "")}}
     \cup (IF x \in {"output_mode", "input_mode"} /\ {MeansThe(x, v) : v \in ToSet(e.values) \cap Known(x)} # {Table(x)[i][2] : i \in DOMAIN Table(x)} THEN {"language-not-on-offer"} ELSE {})
     \cup (IF e.start \in ToSet(e.values) THEN {} ELSE {"starts-with-a-value-not-on-offer"})
     \cup (IF Len(e.values) = Cardinality(ToSet(e.values)) THEN {} ELSE {"offered-twice"})
Tags(e) ==
  CASE e.pass = "expect" -> IF Tell(e) THEN {} ELSE {}
    [] e.k = "request" -> Request(e)
    [] e.k = "offers" -> Offers(e)
    [] e.k = "same" -> IF e.a = e.b THEN {} ELSE {"control-that-is-not-shown-matters"}
    [] e.k = "copy" -> IF e.same THEN {} ELSE {"copies-something-else"}
    [] e.k = "example" -> IF e.ok THEN {} ELSE {"example-does-not-work"}
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
