----------------------------- MODULE JsonStates -----------------------------
(* Every control state of the machine up to a nesting bound, with a text   *)
(* that leads there and one that leads on to the end.                      *)
EXTENDS JsonText, TLC, Json
CONSTANTS MaxStack
Bytes == {SP, LF, QUOTE, BSL, SLASH, LBRACE, RBRACE, LBRACK, RBRACK, COMMA, COLON, MINUS, PLUS, DOT, 48, 53, 57,
          97, 98, 99, 68, 100, 101, 69, 102, 108, 110, 114, 115, 116, 117, 128, 160, 144, 194, 224, 225, 237, 240, 241, 244}
VARIABLES text, q
Init == text = <<>> /\ q = Start
Next == \E b \in Bytes :
          /\ Step(q, b).m # "dead"
          /\ Len(Step(q, b).st) <= MaxStack
          /\ text' = Append(text, b)
          /\ q' = Step(q, b)
\* the frames without their contents, except whether there are any
Control(x) == <<x.m, x.key, x.lit, [i \in DOMAIN x.st |-> x.st[i].k], x.v # NoVal>>
View == Control(q)
Completes == WellFormedText(text \o Completion(q))
Emitted == PrintT("STATE " \o ToJson([b |-> text, c |-> Completion(q), m |-> q.m, d |-> Len(q.st)]))
=============================================================================
