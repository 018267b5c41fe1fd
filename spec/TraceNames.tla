----------------------------- MODULE TraceNames -----------------------------
(* Programs generated for root names with and without a visibility         *)
(* specifier. An event carries the name as given (raw, code points), the   *)
(* specifier and name that generation was judged with (claimed by the      *)
(* harness, checked here), and - as in TraceTargets - the program.         *)
EXTENDS TraceTargets, RootName
Right(e) == ~Odd(e.raw) /\ Root(e.raw) = [vis |-> e.rvis, name |-> e.rname]
NameTags(e) ==
  IF ~Right(e) THEN {"unusable"}
  ELSE IF e.k = "same" THEN (IF e.same THEN {} ELSE {"differs"})
  ELSE Tags(e)
NNext == Consume /\ Report(Trace[pos], NameTags(Trace[pos]))
=============================================================================
