-------------------------------- MODULE Text --------------------------------
(* ASCII character classes and case maps over TLA+ strings (UTF-16 units). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Lowers == {LowerSeq[i] : i \in 1..26}
Uppers == {UpperSeq[i] : i \in 1..26}
Digits == {DigitSeq[i] : i \in 1..10}
Alpha  == Lowers \union Uppers
Alnum  == Alpha \union Digits
\* every other ASCII character that can occur (control characters are given by the environment as escapes)
AsciiPunct == {" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@",
               "[", "\\", "]", "^", "_", "`", "{", "|", "}", "~", "\t", "\n", "\r", "\f"}
IsAscii(c) == c \in Alnum \/ c \in AsciiPunct

ToUpper1 == [c \in Lowers |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
ToLower1 == [c \in Uppers |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
Up(c)  == IF c \in Lowers THEN ToUpper1[c] ELSE c
Low(c) == IF c \in Uppers THEN ToLower1[c] ELSE c

Ch(s, i) == SubSeq(s, i, i)

RECURSIVE MapStr(_, _, _)
MapStr(f(_), s, i) == IF i > Len(s) THEN "" ELSE f(Ch(s, i)) \o MapStr(f, s, i + 1)
Upper(s) == MapStr(Up, s, 1)
Lower(s) == MapStr(Low, s, 1)
UpperFirst(s) == IF s = "" THEN "" ELSE Up(Ch(s, 1)) \o SubSeq(s, 2, Len(s))
LowerFirst(s) == IF s = "" THEN "" ELSE Low(Ch(s, 1)) \o SubSeq(s, 2, Len(s))

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* position of the first character of s at or after i that is c, or 0
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)

RECURSIVE Replace1(_, _, _, _)
\* replace every occurrence of the (non-empty) substring p by r
Replace1(s, p, r, i) ==
  IF i > Len(s) THEN ""
  ELSE IF i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
       THEN r \o Replace1(s, p, r, i + Len(p))
       ELSE Ch(s, i) \o Replace1(s, p, r, i + 1)
ReplaceIn(s, p, r) == Replace1(s, p, r, 1)

AllChars(s, C) == \A i \in 1..Len(s) : Ch(s, i) \in C

\* decimal strings of equal length compare like numbers
DigitVal == [c \in Digits |-> (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1]
RECURSIVE DecLeq(_, _, _)
DecLeq(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE LET x == DigitVal[Ch(a, i)]  y == DigitVal[Ch(b, i)]
       IN IF x = y THEN DecLeq(a, b, i + 1) ELSE x < y
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
=============================================================================
