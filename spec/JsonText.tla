------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts as byte strings: a machine that reads one byte at a time and *)
(* either dies or has built the value when the text ends. Bytes are 0..255; *)
(* strings are sequences of code points; numbers keep their text.          *)
(* Values are those of module Shapes, with keys as code point sequences.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

MaxNesting == 127

\* bytes
SP == 32   TAB == 9   LF == 10   CR == 13
QUOTE == 34   BSL == 92   SLASH == 47
LBRACE == 123   RBRACE == 125   LBRACK == 91   RBRACK == 93   COMMA == 44   COLON == 58
MINUS == 45   PLUS == 43   DOT == 46
IsWs(b) == b \in {SP, TAB, LF, CR}
IsDigit(b) == b \in 48..57
IsHex(b) == b \in 48..57 \/ b \in 65..70 \/ b \in 97..102
HexVal(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
IsExp(b) == b \in {101, 69}
NumText == [b \in (48..57) \union {45, 43, 46, 101, 69} |->
  CASE b = 45 -> "-" [] b = 43 -> "+" [] b = 46 -> "." [] b = 101 -> "e" [] b = 69 -> "E"
    [] b = 48 -> "0" [] b = 49 -> "1" [] b = 50 -> "2" [] b = 51 -> "3" [] b = 52 -> "4"
    [] b = 53 -> "5" [] b = 54 -> "6" [] b = 55 -> "7" [] b = 56 -> "8" [] OTHER -> "9"]
True_  == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>
Null_  == <<110, 117, 108, 108>>

(* The state: m the mode; st the stack of open arrays and objects; and what *)
(* has been read of the token at hand: s a string, c a partial code point,  *)
(* key whether it is a member name, n a number, lit what is left of a       *)
(* literal, v the value after the end                                      *)
NoVal == [k |-> "none"]
Start == [m |-> "value", st |-> <<>>, s |-> <<>>, c |-> 0, key |-> FALSE, n |-> "", lit |-> <<>>, lv |-> NoVal, v |-> NoVal]
Dead == [Start EXCEPT !.m = "dead"]
Reset(q) == [q EXCEPT !.s = <<>>, !.c = 0, !.key = FALSE, !.n = "", !.lit = <<>>, !.lv = NoVal]

TopFrame(q) == q.st[Len(q.st)]
Done(q, v) ==                       \* a value is complete
  LET r == Reset(q)
  IN IF q.st = <<>> THEN [r EXCEPT !.m = "end", !.v = v]
     ELSE LET f == TopFrame(q)
              g == IF f.k = "arr" THEN [f EXCEPT !.a = Append(@, v)]
                   ELSE [f EXCEPT !.m = Append(@, [n |-> f.key, v |-> v])]
          IN [r EXCEPT !.m = "sep", !.st[Len(q.st)] = g]
Close(q) ==
  LET f == TopFrame(q)
      v == IF f.k = "arr" THEN [k |-> "arr", a |-> f.a] ELSE [k |-> "obj", m |-> f.m]
  IN Done([q EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], v)
Open(q, f, mode) ==
  IF Len(q.st) >= MaxNesting THEN Dead ELSE [q EXCEPT !.m = mode, !.st = Append(@, f)]
Literal(q, word, v) == [q EXCEPT !.m = "lit", !.lit = Tail(word), !.lv = v]
NumModes == {"minus", "zero", "int", "dot", "frac", "e", "esign", "exp"}
NumEnds == {"zero", "int", "frac", "exp"}
Num(q, b, mode) == [q EXCEPT !.m = mode, !.n = @ \o NumText[b]]
NumDone(q) == Done(q, [k |-> "num", t |-> q.n])
OpenString(q, isKey) == [q EXCEPT !.m = "str", !.key = isKey, !.s = <<>>]
Push(q, cp) == [q EXCEPT !.m = "str", !.s = Append(@, cp), !.c = 0]
CloseString(q) ==
  IF q.key THEN [Reset(q) EXCEPT !.m = "colon", !.st[Len(q.st)] = [@ EXCEPT !.key = q.s]]
  ELSE Done(q, [k |-> "str", s |-> q.s])

BeginValue(q, b) ==
  CASE b = LBRACE -> Open(q, [k |-> "obj", m |-> <<>>, key |-> <<>>], "key0")
    [] b = LBRACK -> Open(q, [k |-> "arr", a |-> <<>>], "value0")
    [] b = QUOTE -> OpenString(q, FALSE)
    [] b = 116 -> Literal(q, True_, [k |-> "bool", b |-> TRUE])
    [] b = 102 -> Literal(q, False_, [k |-> "bool", b |-> FALSE])
    [] b = 110 -> Literal(q, Null_, [k |-> "null"])
    [] b = MINUS -> Num(q, b, "minus")
    [] b = 48 -> Num(q, b, "zero")
    [] b \in 49..57 -> Num(q, b, "int")
    [] OTHER -> Dead

StepNum(q, b) ==
  CASE q.m = "minus" /\ b = 48 -> Num(q, b, "zero")
    [] q.m = "minus" /\ b \in 49..57 -> Num(q, b, "int")
    [] q.m \in {"zero", "int"} /\ b = DOT -> Num(q, b, "dot")
    [] q.m = "int" /\ IsDigit(b) -> Num(q, b, "int")
    [] q.m \in {"dot", "frac"} /\ IsDigit(b) -> Num(q, b, "frac")
    [] q.m \in {"zero", "int", "frac"} /\ IsExp(b) -> Num(q, b, "e")
    [] q.m = "e" /\ b \in {PLUS, MINUS} -> Num(q, b, "esign")
    [] q.m \in {"e", "esign", "exp"} /\ IsDigit(b) -> Num(q, b, "exp")
    [] OTHER -> Dead

\* UTF-8: modes "c1", "c2", "c3" want that many plain continuation bytes; the others restrict the first one
Cont(q, b, mode) == LET d == [q EXCEPT !.c = @ * 64 + (b - 128)]
                    IN IF mode = "str" THEN Push(q, d.c) ELSE [d EXCEPT !.m = mode]
Lead(q, b, mode, bits) == [q EXCEPT !.m = mode, !.c = b - bits]
Hex(q, b, mode) == [q EXCEPT !.m = mode, !.c = @ * 16 + HexVal(b)]
StepString(q, b) ==
  CASE q.m = "str" /\ b = QUOTE -> CloseString(q)
    [] q.m = "str" /\ b = BSL -> [q EXCEPT !.m = "esc"]
    [] q.m = "str" /\ b \in 32..127 -> Push(q, b)
    [] q.m = "str" /\ b \in 194..223 -> Lead(q, b, "c1", 192)
    [] q.m = "str" /\ b = 224 -> Lead(q, b, "cE0", 224)
    [] q.m = "str" /\ b = 237 -> Lead(q, b, "cED", 224)
    [] q.m = "str" /\ b \in (225..239) \ {237} -> Lead(q, b, "c2", 224)
    [] q.m = "str" /\ b = 240 -> Lead(q, b, "cF0", 240)
    [] q.m = "str" /\ b \in 241..243 -> Lead(q, b, "c3", 240)
    [] q.m = "str" /\ b = 244 -> Lead(q, b, "cF4", 240)
    [] q.m = "c1" /\ b \in 128..191 -> Cont(q, b, "str")
    [] q.m = "c2" /\ b \in 128..191 -> Cont(q, b, "c1")
    [] q.m = "c3" /\ b \in 128..191 -> Cont(q, b, "c2")
    [] q.m = "cE0" /\ b \in 160..191 -> Cont(q, b, "c1")
    [] q.m = "cED" /\ b \in 128..159 -> Cont(q, b, "c1")
    [] q.m = "cF0" /\ b \in 144..191 -> Cont(q, b, "c2")
    [] q.m = "cF4" /\ b \in 128..143 -> Cont(q, b, "c2")
    [] q.m = "esc" /\ b \in {QUOTE, BSL, SLASH} -> Push(q, b)
    [] q.m = "esc" /\ b = 98 -> Push(q, 8)
    [] q.m = "esc" /\ b = 102 -> Push(q, 12)
    [] q.m = "esc" /\ b = 110 -> Push(q, 10)
    [] q.m = "esc" /\ b = 114 -> Push(q, 13)
    [] q.m = "esc" /\ b = 116 -> Push(q, 9)
    [] q.m = "esc" /\ b = 117 -> [q EXCEPT !.m = "u1", !.c = 0]
    \* \uXXXX: D800-DBFF has to be followed by \uDC00-\uDFFF
    [] q.m = "u1" /\ b \in {100, 68} -> Hex(q, b, "u2d")
    [] q.m = "u1" /\ IsHex(b) -> Hex(q, b, "u2")
    [] q.m = "u2d" /\ IsHex(b) /\ HexVal(b) \in 0..7 -> Hex(q, b, "u3")
    [] q.m = "u2d" /\ IsHex(b) /\ HexVal(b) \in 8..11 -> Hex(q, b, "h3")
    [] q.m = "u2" /\ IsHex(b) -> Hex(q, b, "u3")
    [] q.m = "u3" /\ IsHex(b) -> Hex(q, b, "u4")
    [] q.m = "u4" /\ IsHex(b) -> Push(q, q.c * 16 + HexVal(b))
    [] q.m = "h3" /\ IsHex(b) -> Hex(q, b, "h4")
    [] q.m = "h4" /\ IsHex(b) -> [Hex(q, b, "hb") EXCEPT !.c = @ - 55296]
    [] q.m = "hb" /\ b = BSL -> [q EXCEPT !.m = "hu"]
    [] q.m = "hu" /\ b = 117 -> [q EXCEPT !.m = "l1"]
    [] q.m = "l1" /\ b \in {100, 68} -> [q EXCEPT !.m = "l2"]
    [] q.m = "l2" /\ IsHex(b) /\ HexVal(b) \in 12..15 -> [q EXCEPT !.m = "l3", !.c = @ * 4 + (HexVal(b) - 12)]
    [] q.m = "l3" /\ IsHex(b) -> Hex(q, b, "l4")
    [] q.m = "l4" /\ IsHex(b) -> Push(q, 65536 + q.c * 16 + HexVal(b))
    [] OTHER -> Dead

Between == {"value", "value0", "key0", "key", "colon", "sep", "end"}
StepBetween(q, b) ==
  CASE IsWs(b) -> q
    [] q.m = "value0" /\ b = RBRACK -> Close(q)
    [] q.m \in {"value", "value0"} -> BeginValue(q, b)
    [] q.m = "key0" /\ b = RBRACE -> Close(q)
    [] q.m \in {"key0", "key"} /\ b = QUOTE -> OpenString(q, TRUE)
    [] q.m = "colon" /\ b = COLON -> [q EXCEPT !.m = "value"]
    [] q.m = "sep" /\ b = COMMA -> [q EXCEPT !.m = IF TopFrame(q).k = "arr" THEN "value" ELSE "key"]
    [] q.m = "sep" /\ b = RBRACK /\ TopFrame(q).k = "arr" -> Close(q)
    [] q.m = "sep" /\ b = RBRACE /\ TopFrame(q).k = "obj" -> Close(q)
    [] OTHER -> Dead

NumGoesOn(b) == IsDigit(b) \/ b \in {DOT, PLUS, MINUS} \/ IsExp(b)
Step(q, b) ==
  IF q.m = "dead" THEN q
  ELSE IF q.m \in Between THEN StepBetween(q, b)
  ELSE IF q.m = "lit" THEN
         IF b # Head(q.lit) THEN Dead
         ELSE IF Len(q.lit) = 1 THEN Done(q, q.lv) ELSE [q EXCEPT !.lit = Tail(@)]
  ELSE IF q.m \in NumModes THEN
         IF NumGoesOn(b) THEN StepNum(q, b)
         ELSE IF q.m \in NumEnds THEN StepBetween(NumDone(q), b) ELSE Dead
  ELSE StepString(q, b)
Finish(q) == IF q.m \in NumEnds THEN NumDone(q) ELSE q

Read(bytes) == Finish(FoldLeft(Step, Start, bytes))
WellFormedText(bytes) == Read(bytes).m = "end"
ValueOf(bytes) == Read(bytes).v

----------------------------------------------------------------------------
(* The shortest way from a state to the end of a text                      *)
StackClosers(q) == [i \in 1..Len(q.st) |-> IF q.st[Len(q.st) + 1 - i].k = "arr" THEN RBRACK ELSE RBRACE]
InString(q) == q.m \notin Between /\ q.m \notin NumModes /\ q.m # "lit"
StringRest(q) ==
  CASE q.m = "str" -> <<>>
    [] q.m \in {"c1", "cED"} -> IF q.m = "c1" THEN <<128>> ELSE <<128, 128>>
    [] q.m = "c2" -> <<128, 128>>
    [] q.m = "c3" -> <<128, 128, 128>>
    [] q.m = "cE0" -> <<160, 128>>
    [] q.m = "cF0" -> <<144, 128, 128>>
    [] q.m = "cF4" -> <<128, 128, 128>>
    [] q.m = "esc" -> <<110>>
    [] q.m = "u1" -> <<48, 48, 52, 49>>
    [] q.m \in {"u2", "u2d"} -> <<48, 52, 49>>
    [] q.m = "u3" -> <<52, 49>>
    [] q.m = "u4" -> <<49>>
    [] q.m = "h3" -> <<48, 48, BSL, 117, 68, 67, 48, 48>>
    [] q.m = "h4" -> <<48, BSL, 117, 68, 67, 48, 48>>
    [] q.m = "hb" -> <<BSL, 117, 68, 67, 48, 48>>
    [] q.m = "hu" -> <<117, 68, 67, 48, 48>>
    [] q.m = "l1" -> <<68, 67, 48, 48>>
    [] q.m = "l2" -> <<67, 48, 48>>
    [] q.m = "l3" -> <<48, 48>>
    [] OTHER -> <<48>>
AfterKey == <<COLON, 48>>
AfterString(q) == IF q.key THEN AfterKey ELSE <<>>
Completion(q) ==
  CASE q.m = "value" -> <<48>> \o StackClosers(q)
    [] q.m \in {"value0", "key0", "sep", "end"} -> StackClosers(q)
    [] q.m = "key" -> <<QUOTE, QUOTE>> \o AfterKey \o StackClosers(q)
    [] q.m = "colon" -> AfterKey \o StackClosers(q)
    [] q.m = "lit" -> q.lit \o StackClosers(q)
    [] q.m \in NumEnds -> StackClosers(q)
    [] q.m \in NumModes -> <<49>> \o StackClosers(q)
    [] OTHER -> StringRest(q) \o <<QUOTE>> \o AfterString(q) \o StackClosers(q)
=============================================================================
