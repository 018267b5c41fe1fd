---------------------------- MODULE JsonGrammar ----------------------------
(***************************************************************************)
(* The grammar of RFC 8259 as it is written there, over byte strings: for  *)
(* every nonterminal the set of positions where a phrase that starts at i  *)
(* can end. Stated independently of the machine in JsonText, to check the  *)
(* one against the other over all short byte strings.                      *)
(***************************************************************************)
EXTENDS JsonText

At(t, i, S) == i <= Len(t) /\ t[i] \in S
\* all of these are sets of positions after the phrase
Char1(t, i, S) == IF At(t, i, S) THEN {i + 1} ELSE {}
RECURSIVE Many(_, _, _)            \* zero or more bytes of S
Many(t, i, S) == {i} \union (IF At(t, i, S) THEN Many(t, i + 1, S) ELSE {})
WS(t, i) == Many(t, i, {SP, TAB, LF, CR})
Then(X, f(_)) == UNION {f(i) : i \in X}
Digit1(t, i) == Then(Char1(t, i, 48..57), LAMBDA j : Many(t, j, 48..57))
Opt(X, f(_)) == X \union Then(X, f)
Word(t, i, w) == IF i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w THEN {i + Len(w)} ELSE {}

GNumber(t, i) ==
  LET sign == {i} \union Char1(t, i, {MINUS})
      int == Then(sign, LAMBDA j : Char1(t, j, {48}) \union Then(Char1(t, j, 49..57), LAMBDA k : Many(t, k, 48..57)))
      frac == Opt(int, LAMBDA j : Then(Char1(t, j, {DOT}), LAMBDA k : Digit1(t, k)))
  IN Opt(frac, LAMBDA j : Then(Char1(t, j, {101, 69}), LAMBDA k :
            Then({k} \union Char1(t, k, {PLUS, MINUS}), LAMBDA l : Digit1(t, l))))

H4(t, i, first, second) ==
  Then(Char1(t, i, first), LAMBDA j : Then(Char1(t, j, second), LAMBDA k :
     Then(Char1(t, k, {b \in 0..255 : IsHex(b)}), LAMBDA l : Char1(t, l, {b \in 0..255 : IsHex(b)}))))
HexB == {b \in 0..255 : IsHex(b)}
DHex == {68, 100}
HexIn(lo, hi) == {b \in HexB : HexVal(b) \in lo..hi}
Escape(t, i) == Word(t, i, <<BSL, 117>>)
GChar(t, i) ==
  Char1(t, i, (32..127) \ {QUOTE, BSL})
  \union Then(Char1(t, i, {BSL}), LAMBDA j : Char1(t, j, {QUOTE, BSL, SLASH, 98, 102, 110, 114, 116}))
  \union Then(Escape(t, i), LAMBDA j : H4(t, j, HexB \ DHex, HexB) \union H4(t, j, DHex, HexIn(0, 7)))
  \union Then(Escape(t, i), LAMBDA j : Then(H4(t, j, DHex, HexIn(8, 11)), LAMBDA k :
            Then(Escape(t, k), LAMBDA l : H4(t, l, DHex, HexIn(12, 15)))))
  \* UTF-8 (RFC 3629)
  \union Then(Char1(t, i, 194..223), LAMBDA j : Char1(t, j, 128..191))
  \union Then(Char1(t, i, {224}), LAMBDA j : Then(Char1(t, j, 160..191), LAMBDA k : Char1(t, k, 128..191)))
  \union Then(Char1(t, i, (225..236) \union {238, 239}), LAMBDA j : Then(Char1(t, j, 128..191), LAMBDA k : Char1(t, k, 128..191)))
  \union Then(Char1(t, i, {237}), LAMBDA j : Then(Char1(t, j, 128..159), LAMBDA k : Char1(t, k, 128..191)))
  \union Then(Char1(t, i, {240}), LAMBDA j : Then(Char1(t, j, 144..191), LAMBDA k :
            Then(Char1(t, k, 128..191), LAMBDA l : Char1(t, l, 128..191))))
  \union Then(Char1(t, i, 241..243), LAMBDA j : Then(Char1(t, j, 128..191), LAMBDA k :
            Then(Char1(t, k, 128..191), LAMBDA l : Char1(t, l, 128..191))))
  \union Then(Char1(t, i, {244}), LAMBDA j : Then(Char1(t, j, 128..143), LAMBDA k :
            Then(Char1(t, k, 128..191), LAMBDA l : Char1(t, l, 128..191))))
RECURSIVE GChars(_, _)
GChars(t, i) == {i} \union Then(GChar(t, i), LAMBDA j : GChars(t, j))
GString(t, i) == Then(Char1(t, i, {QUOTE}), LAMBDA j : Then(GChars(t, j), LAMBDA k : Char1(t, k, {QUOTE})))

RECURSIVE GValue(_, _), GElems(_, _), GMembers(_, _)
Struct(t, i, c) == Then(WS(t, i), LAMBDA j : Then(Char1(t, j, {c}), LAMBDA k : WS(t, k)))
GMember(t, i) == Then(GString(t, i), LAMBDA j : Then(Struct(t, j, COLON), LAMBDA k : GValue(t, k)))
GElems(t, i) == LET one == GValue(t, i) IN one \union Then(one, LAMBDA j : Then(Struct(t, j, COMMA), LAMBDA k : GElems(t, k)))
GMembers(t, i) == LET one == GMember(t, i) IN one \union Then(one, LAMBDA j : Then(Struct(t, j, COMMA), LAMBDA k : GMembers(t, k)))
GValue(t, i) ==
  Word(t, i, True_) \union Word(t, i, False_) \union Word(t, i, Null_)
  \union GNumber(t, i) \union GString(t, i)
  \union Then(Struct(t, i, LBRACK), LAMBDA j : Then({j} \union GElems(t, j), LAMBDA k : Struct(t, k, RBRACK)))
  \union Then(Struct(t, i, LBRACE), LAMBDA j : Then({j} \union GMembers(t, j), LAMBDA k : Struct(t, k, RBRACE)))
InGrammar(t) == Len(t) + 1 \in Then(WS(t, 1), LAMBDA i : Then(GValue(t, i), LAMBDA j : WS(t, j)))
=============================================================================
