---------------------------- MODULE JsonStrings ----------------------------
(* All byte strings up to a length over an alphabet: the machine accepts   *)
(* exactly the texts of the grammar.                                       *)
EXTENDS JsonGrammar, TLC, Json
CONSTANTS MaxLen, AlphabetName, Emit
Alphabets == [
  number    |-> {45, 48, 55, 46, 101, 43},
  structure |-> {LBRACE, RBRACE, LBRACK, RBRACK, COMMA, COLON, 49, QUOTE},
  string    |-> {QUOTE, BSL, 97, 31, 127, 128, 195, 117},
  literal   |-> {116, 114, 117, 101, 110, 108, SP},
  space     |-> {SP, TAB, 11, 0, 49, LBRACK, RBRACK, COMMA}]
Alphabet == Alphabets[AlphabetName]
VARIABLES text, q
Init == text = <<>> /\ q = Start
Next == /\ Len(text) < MaxLen
        /\ q.m # "dead"
        /\ \E b \in Alphabet : text' = Append(text, b) /\ q' = Step(q, b)
Agrees == (Finish(q).m = "end") <=> InGrammar(text)
\* a dead state stays dead: no text that begins so is in the grammar (checked one byte further)
DeadIsDead == q.m = "dead" => \A b \in Alphabet : ~InGrammar(Append(text, b))
CompletionWorks == q.m # "dead" => WellFormedText(text \o Completion(q))
FoldIsStep == FoldLeft(Step, Start, text) = q
Vectors == Emit => (q.m = "dead" \/ PrintT("DOC " \o ToJson([b |-> text, m |-> q.m])))
=============================================================================
