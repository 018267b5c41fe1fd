----------------------------- MODULE CauseModel -----------------------------
(* All byte strings over an alphabet: what may be named for them.          *)
EXTENDS Causes, TLC, Json
CONSTANTS MaxLen, AlphabetName, Emit
Alphabets == [
  string    |-> {QUOTE, BSL, 97, 31, 117, 195, 169, 49},
  escape    |-> {QUOTE, BSL, 117, 68, 100, 56, 67, 48, 120},
  structure |-> {LBRACE, RBRACE, LBRACK, RBRACK, COMMA, COLON, 49, QUOTE},
  literal   |-> {LBRACK, COMMA, 116, 114, 117, 101, MINUS, DOT, 49}]
Alphabet == Alphabets[AlphabetName]
Begin == IF AlphabetName = "escape" THEN {<<QUOTE, BSL>>, <<QUOTE, BSL, 117, 68>>} ELSE {<<>>}
VARIABLES text, q
Init == text \in Begin /\ q = FoldLeft(Step, Start, text)
Next == /\ Len(text) < MaxLen
        /\ \E b \in Alphabet : text' = Append(text, b) /\ q' = Step(q, b)
C == JsonCauses(text)
\* something is named exactly where there is something wrong
Named == (C = {}) <=> WellFormedText(text)
\* where a text can be completed its end is named, and nothing else is unless a number is at hand; where it cannot be, more than that is wrong with it
EndNamed == q.m # "dead" /\ ~WellFormedText(text) => "end" \in C /\ (q.m \notin NumModes => C = {"end"}) /\ WellFormedText(text \o Completion(q))
EndMeansMore == q.m = "dead" => C # {"end"}
Utf8Named == "utf8" \in C => Exotic(text, 1) \/ "escape" \in C
EscapeNamed == "escape" \in C => \E i \in DOMAIN text : text[i] = BSL
NoDepth == "deep" \notin C
Known == C \subseteq {"end", "utf8", "escape", "json", "deep"}
Fault == "io" \in FaultCauses(text) /\ (q.m # "dead" => FaultCauses(text) = {"io"})
ASSUME \A f \in SUBSET {"macro", "open", "read", "parse"} : LET s == FirstFailing(f) IN (s = "none") = (f = {}) /\ (s # "none" => s \in f)
Vectors == (Emit /\ C # {}) => PrintT("TEXT " \o ToJson([b |-> text]))
=============================================================================
