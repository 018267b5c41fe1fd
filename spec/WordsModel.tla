----------------------------- MODULE WordsModel -----------------------------
(***************************************************************************)
(* A machine that reads a name one character at a time, remembering only   *)
(* the character before, and writes it in both styles. TLC visits all names *)
(* of up to MaxLen characters from an alphabet with one character of every *)
(* kind, and compares with the words of Words.tla.                         *)
(***************************************************************************)
EXTENDS Words, Integers, Json

CONSTANTS MaxLen, Emit
Alphabet == {97, 98, 65, 49, 95, 32, 1, 127, 233}
VARIABLES name, last, snake, pascal
vars == <<name, last, snake, pascal>>
None == -1
Init == name = <<>> /\ last = None /\ snake = <<>> /\ pascal = <<>>
Read(c) ==
  LET new == (last \in 0..127 /\ ~An(last)) \/ (Lo(last) /\ Hi(c))
  IN /\ name' = Append(name, c)
     /\ IF An(c)
        THEN /\ last' = c
             /\ snake' = snake \o (IF new /\ snake # <<>> THEN <<95>> ELSE <<>>) \o <<LowC(c)>>
             /\ pascal' = Append(pascal, IF new \/ snake = <<>> THEN UpC(c) ELSE IF Lo(last) \/ Hi(last) THEN LowC(c) ELSE c)
        ELSE last' = c /\ UNCHANGED <<snake, pascal>>
Next == Len(name) < MaxLen /\ \E c \in Alphabet : Read(c)

Agree == snake = Snake(name) /\ pascal = PascalWords(name)
\* no letter or digit is lost, gained or moved
Chars(k) == LET RECURSIVE go(_) go(i) == IF i > Len(k) THEN <<>> ELSE (IF An(k[i]) THEN <<LowC(k[i])>> ELSE <<>>) \o go(i + 1) IN go(1)
Keeps == Chars(snake) = Chars(name) /\ Chars(pascal) = Chars(name)
\* separators only between words
Tidy == \A i \in DOMAIN snake : snake[i] = 95 => 1 < i /\ i < Len(snake) /\ An(snake[i - 1]) /\ An(snake[i + 1])
\* what has the style of the language already stays as it is
Fixed == Snake(snake) = snake
Vectors == (Emit /\ Len(name) = MaxLen) => PrintT("NAME " \o ToJson(name))
=============================================================================
