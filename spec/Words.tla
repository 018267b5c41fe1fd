------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* What a member's name becomes where the language has a style of its own. *)
(* Names are sequences of code points. The words of a name are made of its *)
(* ASCII letters and digits; a word begins after an ASCII character that is *)
(* neither, and where a capital follows a small letter. (Other characters  *)
(* are left out, and do not end a word.) WordsModel.tla checks a machine   *)
(* that reads the name once against this.                                  *)
(***************************************************************************)
EXTENDS Text

Lo(c) == c \in 97..122
Hi(c) == c \in 65..90
Dig(c) == c \in 48..57
An(c) == Lo(c) \/ Hi(c) \/ Dig(c)
LowC(c) == IF Hi(c) THEN c + 32 ELSE c
UpC(c) == IF Lo(c) THEN c - 32 ELSE c

Kept(k) == {i \in DOMAIN k : An(k[i])}
Begins(k) ==       \* where words begin
  {i \in Kept(k) : \/ \A j \in Kept(k) : i <= j
                   \/ k[i - 1] < 128 /\ ~An(k[i - 1])
                   \/ Lo(k[i - 1]) /\ Hi(k[i])}
FirstOf(k) == CHOOSE i \in Kept(k) : \A j \in Kept(k) : i <= j
RECURSIVE Strung(_, _)
Strung(pieces, i) == IF i > Len(pieces) THEN <<>> ELSE pieces[i] \o Strung(pieces, i + 1)
Snake(k) ==
  LET b == Begins(k)
  IN Strung([i \in DOMAIN k |-> IF ~An(k[i]) THEN <<>> ELSE IF i \in b /\ i # FirstOf(k) THEN <<95, LowC(k[i])>> ELSE <<LowC(k[i])>>], 1)
PascalWords(k) ==
  LET b == Begins(k)
  IN Strung([i \in DOMAIN k |-> IF ~An(k[i]) THEN <<>> ELSE IF i \in b THEN <<UpC(k[i])>>
                                ELSE IF Lo(k[i - 1]) \/ Hi(k[i - 1]) THEN <<LowC(k[i])>> ELSE <<k[i]>>], 1)
LowFirst(k) == IF k = <<>> THEN k ELSE <<LowC(k[1])>> \o Tail(k)

----------------------------------------------------------------------------
(* The singular of a name, as far as a few endings tell                    *)
Cps(s) == [i \in 1..Len(s) |-> 96 + (CHOOSE j \in 1..26 : LowerSeq[j] = Ch(s, i))]
Endings == << [e |-> Cps("series"), cut |-> 0, new |-> <<>>], [e |-> Cps("cookies"), cut |-> 1, new |-> <<>>], [e |-> Cps("movies"), cut |-> 1, new |-> <<>>],
              [e |-> Cps("ies"), cut |-> 3, new |-> Cps("y")], [e |-> Cps("les"), cut |-> 1, new |-> <<>>], [e |-> Cps("pes"), cut |-> 1, new |-> <<>>],
              [e |-> Cps("ss"), cut |-> 0, new |-> <<>>], [e |-> Cps("es"), cut |-> 0, new |-> <<>>], [e |-> Cps("is"), cut |-> 0, new |-> <<>>],
              [e |-> Cps("as"), cut |-> 0, new |-> <<>>], [e |-> Cps("us"), cut |-> 0, new |-> <<>>], [e |-> Cps("os"), cut |-> 0, new |-> <<>>],
              [e |-> Cps("news"), cut |-> 0, new |-> <<>>], [e |-> Cps("s"), cut |-> 1, new |-> <<>>] >>
EndsIn(k, e) == Len(k) >= Len(e) /\ \A i \in DOMAIN e : LowC(k[Len(k) - Len(e) + i]) = e[i]
Singular(k) ==
  LET fits == {i \in DOMAIN Endings : EndsIn(k, Endings[i].e)}
  IN IF fits = {} THEN k
     ELSE LET r == Endings[CHOOSE i \in fits : \A j \in fits : i <= j] IN SubSeq(k, 1, Len(k) - r.cut) \o r.new

----------------------------------------------------------------------------
(* Names that the words alone do not give                                  *)
FieldWord == Cps("field")
TypeWord == <<71>> \o Cps("enerated") \o <<84>> \o Cps("ype")       \* GeneratedType
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
\* what a name may look like before numbers are given out; avoid: names that the language or its library has taken
Plain(words, default, avoid, digit) ==
  LET all == {words} \union (IF words \in avoid THEN {words \o <<95>> \o FieldWord} ELSE {})
      some == {IF w = <<>> THEN default ELSE w : w \in all}
  IN {IF Dig(w[1]) THEN <<digit>> \o w ELSE w : w \in some}
\* the first that is free: none of the numbers before, nor the plain name
Numbered(name, base, taken) ==
  \/ name = base
  \/ /\ base \in taken
     /\ \E n \in 2..(Cardinality(taken) + 2) : /\ name = base \o Decimal(n)
                                              /\ \A m \in 2..(n - 1) : base \o Decimal(m) \in taken
=============================================================================
