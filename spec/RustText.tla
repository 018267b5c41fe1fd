------------------------------ MODULE RustText ------------------------------
(***************************************************************************)
(* The tokens of options blocks and macro arguments. Text is a sequence of *)
(* code points. Tokens: punctuation, identifiers, string literals (plain   *)
(* and raw), and "other" for everything that has no place there (numbers,  *)
(* unterminated literals, stray characters), after which nothing is read.  *)
(* A machine that reads one code point at a time:                          *)
(*   m    mode                                                             *)
(*   out  tokens so far                                                    *)
(*   s    what has been read of the token at hand                          *)
(*   n    hash marks, nesting of comments, or the digits of an escape      *)
(*   c    value of the escape                                              *)
(*   odd  TRUE if the text holds something on which Rust and simpler       *)
(*        readers differ (doc comments, comments at the end, raw keys)     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288, 8206, 8207} \union (8192..8202)
IsWhite(c) == c \in White
IdStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
IdGoesOn(c) == IdStart(c) \/ c \in 48..57
HexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexOf(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Punct(c) == c \in {123, 125, 58, 44}
PunctName(c) == CASE c = 123 -> "{" [] c = 125 -> "}" [] c = 58 -> ":" [] OTHER -> ","

LexStart == [m |-> "gap", out |-> <<>>, s |-> <<>>, n |-> 0, k |-> 0, c |-> 0, odd |-> FALSE, tail |-> FALSE]
Tok(q, t) == [q EXCEPT !.m = "gap", !.out = Append(@, t), !.s = <<>>, !.n = 0, !.k = 0, !.c = 0, !.tail = FALSE]
Stuck(q) == [q EXCEPT !.m = "stuck", !.out = Append(@, [t |-> "other", s |-> <<>>]), !.s = <<>>]
Put(q, c) == [q EXCEPT !.m = "str", !.s = Append(@, c)]

LexGap(q, c) ==
  CASE c \in {8206, 8207} -> [q EXCEPT !.tail = TRUE]      \* direction marks: white space for Rust only
    [] IsWhite(c) -> q
    [] Punct(c) -> Tok(q, [t |-> PunctName(c), s |-> <<>>])
    [] c = 34 -> [q EXCEPT !.m = "str", !.s = <<>>]
    [] c = 114 -> [q EXCEPT !.m = "r", !.s = <<c>>, !.n = 0]
    [] IdStart(c) -> [q EXCEPT !.m = "id", !.s = <<c>>]
    [] c = 47 -> [q EXCEPT !.m = "slash"]
    [] OTHER -> Stuck(q)
IdEnd(q, c) == LexGap(Tok(q, [t |-> "id", s |-> q.s]), c)

LexStr(q, c) ==
  CASE c = 34 -> Tok(q, [t |-> "str", s |-> q.s])
    [] c = 92 -> [q EXCEPT !.m = "esc"]
    [] c = 13 -> [q EXCEPT !.m = "cr"]
    [] OTHER -> Put(q, c)
LexEsc(q, c) ==
  CASE c \in {92, 34, 39} -> Put(q, c)
    [] c = 110 -> Put(q, 10)
    [] c = 114 -> Put(q, 13)
    [] c = 116 -> Put(q, 9)
    [] c = 48 -> Put(q, 0)
    [] c = 120 -> [q EXCEPT !.m = "x1"]
    [] c = 117 -> [q EXCEPT !.m = "u"]
    [] c \in {10, 13} -> [q EXCEPT !.m = "skip", !.odd = @ \/ c = 13]
    [] OTHER -> Stuck(q)
Scalar(v) == v <= 1114111 /\ v \notin 55296..57343

LexStep(q, c) ==
  CASE q.m = "stuck" -> q
    [] q.m = "gap" -> LexGap(q, c)
    [] q.m = "id" -> IF IdGoesOn(c) THEN [q EXCEPT !.s = Append(@, c)] ELSE IdEnd(q, c)
    \* after an r: a raw string or an identifier
    [] q.m = "r" -> IF c = 34 THEN [q EXCEPT !.m = "raw", !.s = <<>>, !.n = 0]
                    ELSE IF c = 35 THEN [q EXCEPT !.m = "hash", !.n = 1]
                    ELSE IF IdGoesOn(c) THEN [q EXCEPT !.m = "id", !.s = Append(@, c)] ELSE IdEnd(q, c)
    [] q.m = "hash" -> IF c = 35 THEN [q EXCEPT !.n = @ + 1]
                       ELSE IF c = 34 THEN [q EXCEPT !.m = "raw", !.s = <<>>] ELSE Stuck(q)
    [] q.m = "raw" -> IF c = 34 THEN (IF q.n = 0 THEN Tok(q, [t |-> "raw", s |-> q.s]) ELSE [q EXCEPT !.m = "rawend", !.k = 0])
                      ELSE IF c = 13 THEN [q EXCEPT !.odd = TRUE] ELSE [q EXCEPT !.s = Append(@, c)]
    \* k hash marks after a quote
    [] q.m = "rawend" ->
         IF c = 35 THEN (IF q.k + 1 = q.n THEN Tok(q, [t |-> "raw", s |-> q.s]) ELSE [q EXCEPT !.k = @ + 1])
         ELSE LET back == [q EXCEPT !.m = "raw", !.k = 0, !.s = @ \o <<34>> \o [i \in 1..q.k |-> 35]]
              IN IF c = 34 THEN [back EXCEPT !.m = "rawend"]
                 ELSE IF c = 13 THEN [back EXCEPT !.odd = TRUE] ELSE [back EXCEPT !.s = Append(@, c)]
    [] q.m = "str" -> LexStr(q, c)
    [] q.m = "cr" -> IF c = 10 THEN Put(q, 10) ELSE Stuck(q)
    [] q.m = "esc" -> LexEsc(q, c)
    [] q.m = "skip" -> IF IsWhite(c) THEN [q EXCEPT !.odd = @ \/ c > 127] ELSE LexStr([q EXCEPT !.m = "str"], c)
    [] q.m = "x1" -> IF c \in 48..55 THEN [q EXCEPT !.m = "x2", !.c = HexOf(c)] ELSE Stuck(q)
    [] q.m = "x2" -> IF HexDigit(c) THEN Put([q EXCEPT !.c = 0], q.c * 16 + HexOf(c)) ELSE Stuck(q)
    [] q.m = "u" -> IF c = 123 THEN [q EXCEPT !.m = "u0", !.c = 0, !.n = 0] ELSE Stuck(q)
    [] q.m = "u0" -> IF HexDigit(c) /\ q.n < 6 THEN [q EXCEPT !.c = @ * 16 + HexOf(c), !.n = @ + 1]
                     ELSE IF c = 125 /\ q.n > 0 /\ Scalar(q.c) THEN Put([q EXCEPT !.c = 0, !.n = 0], q.c)
                     ELSE Stuck(q)
    \* comments; doc comments are odd
    [] q.m = "slash" -> IF c = 47 THEN [q EXCEPT !.m = "line0", !.tail = TRUE]
                        ELSE IF c = 42 THEN [q EXCEPT !.m = "block0", !.n = 1, !.tail = TRUE] ELSE Stuck(q)
    [] q.m = "line0" -> IF c = 10 THEN [q EXCEPT !.m = "gap"]
                        ELSE [q EXCEPT !.m = "line", !.odd = @ \/ c \in {47, 33}]
    [] q.m = "line" -> IF c = 10 THEN [q EXCEPT !.m = "gap"] ELSE q
    [] q.m = "block0" -> IF c = 42 THEN [q EXCEPT !.m = "star", !.odd = TRUE]
                         ELSE IF c = 47 THEN [q EXCEPT !.m = "in/"] ELSE [q EXCEPT !.m = "block", !.odd = @ \/ c = 33]
    [] q.m = "block" -> IF c = 42 THEN [q EXCEPT !.m = "star"] ELSE IF c = 47 THEN [q EXCEPT !.m = "in/"] ELSE q
    [] q.m = "in/" -> IF c = 42 THEN [q EXCEPT !.m = "block", !.n = @ + 1] ELSE IF c = 47 THEN q ELSE [q EXCEPT !.m = "block"]
    [] q.m = "star" -> IF c = 47 THEN (IF q.n = 1 THEN [q EXCEPT !.m = "gap", !.n = 0] ELSE [q EXCEPT !.m = "block", !.n = @ - 1])
                       ELSE IF c = 42 THEN q ELSE [q EXCEPT !.m = "block"]
    [] OTHER -> Stuck(q)
LexFinish(q) ==
  CASE q.m \in {"gap", "stuck"} -> q
    [] q.m \in {"id", "r"} -> Tok(q, [t |-> "id", s |-> q.s])
    [] q.m \in {"line0", "line"} -> q
    [] OTHER -> Stuck(q)
Lex(text) == LexFinish(FoldLeft(LexStep, LexStart, text))
=============================================================================
