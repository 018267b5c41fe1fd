---------------------------- MODULE NumberModel ----------------------------
(***************************************************************************)
(* Names are given out one after the other: the plain one if it is free,   *)
(* otherwise with the first free number. TLC visits all sequences of Len0  *)
(* wishes from a pool of names that look like numbered ones. Whatever comes *)
(* later, each name fits its wish (Numbered), and no two are the same.     *)
(***************************************************************************)
EXTENDS Words, Integers
CONSTANT Len0
Pool == {<<97>>, <<97, 50>>, <<97, 51>>, <<97, 50, 50>>, <<98>>}
Reserved == {<<>>, <<97>>, <<98>>}      \* none, a, b taken from the start
VARIABLES start, wishes, names
Init == start \in Reserved /\ wishes = <<>> /\ names = <<>>
Taken == {names[i] : i \in DOMAIN names} \union (IF start = <<>> THEN {} ELSE {start})
RECURSIVE Free(_, _)
Free(b, n) == IF b \o Decimal(n) \in Taken THEN Free(b, n + 1) ELSE b \o Decimal(n)
Next == /\ Len(wishes) < Len0
        /\ \E w \in Pool : wishes' = Append(wishes, w) /\ names' = Append(names, IF w \in Taken THEN Free(w, 2) ELSE w)
        /\ UNCHANGED start
Fit == \A i \in DOMAIN names : Numbered(names[i], wishes[i], Taken)
Distinct == \A i, j \in DOMAIN names : names[i] = names[j] => i = j
\* and the other way round: the names that fit are no others, if nothing is taken later
Only == \A i \in DOMAIN names : i = Len(names) =>
          \A n \in 2..6 : Numbered(wishes[i] \o Decimal(n), wishes[i], Taken \ {names[i]}) => \A m \in 2..(n - 1) : wishes[i] \o Decimal(m) \in Taken
=============================================================================
