------------------------------ MODULE RootName ------------------------------
(* "Wherever the name of the root output type can be given you can prefix  *)
(* it with a visibility specifier. The subtypes and fields will inherit    *)
(* this visibility specifier." (Fields do so only if no field_visibility   *)
(* is set, and by default it is: an existing test wants pub fields.)       *)
(* Names are sequences of code points.                                     *)
EXTENDS Naturals, Sequences
Pub == <<112, 117, 98>>            \* pub
LPar == 40
RPar == 41
Blank == 32
None == <<>>                       \* no specifier
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = Blank THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))          \* blanks around do not matter
Plain(s) == [vis |-> None, name |-> Trim(s)]
FindCode(s, c) == LET at == {i \in DOMAIN s : s[i] = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* declarative: a specifier, blanks, a name *)
IsVis(v) == v = Pub \/ (Len(v) > 5 /\ StartsWith(v, Append(Pub, LPar)) /\ FindCode(v, RPar) = Len(v))
IsRoot(n) == n # <<>> /\ n[1] # Blank
ReadingsOf(s) ==
  {[vis |-> SubSeq(s, 1, i), name |-> SubSeq(s, j, Len(s))] :
     <<i, j>> \in {p \in (1..Len(s)) \X (1..Len(s)) : /\ p[1] + 1 < p[2]
                                                       /\ \A k \in (p[1] + 1)..(p[2] - 1) : s[k] = Blank
                                                       /\ IsVis(SubSeq(s, 1, p[1])) /\ IsRoot(SubSeq(s, p[2], Len(s)))}}
Readings(s) == ReadingsOf(Trim(s))
Root(s) == IF Readings(s) = {} THEN Plain(s) ELSE CHOOSE r \in Readings(s) : TRUE
\* texts that begin like a specifier without being one with a name: nothing is said about them
Odd(s) == LET t == Trim(s) IN Readings(s) = {} /\ (t = <<>> \/ StartsWith(t, Append(Pub, Blank)) \/ StartsWith(t, Append(Pub, LPar)))

(* machine: one code point at a time *)
RStart == [m |-> "pub", n |-> 0, vis |-> None, name |-> <<>>, all |-> <<>>]
RStep(a, c) ==
  LET b == [a EXCEPT !.all = Append(a.all, c)]
      vis == [b EXCEPT !.vis = Append(a.vis, c)]
      plain == [b EXCEPT !.m = "plain", !.vis = None]
  IN CASE a.m = "pub" /\ a.n = 0 /\ c = Blank -> a
       [] a.m = "pub" -> IF a.n < 3 THEN (IF c = Pub[a.n + 1] THEN [vis EXCEPT !.n = a.n + 1] ELSE plain)
                         ELSE IF c = Blank THEN [b EXCEPT !.m = "gap"]
                         ELSE IF c = LPar THEN [vis EXCEPT !.m = "in", !.n = 0]
                         ELSE plain
       [] a.m = "in" -> IF c = RPar THEN (IF a.n = 0 THEN plain ELSE [vis EXCEPT !.m = "closed"]) ELSE [vis EXCEPT !.n = 1]
       [] a.m = "closed" -> IF c = Blank THEN [b EXCEPT !.m = "gap"] ELSE plain
       [] a.m = "gap" -> IF c = Blank THEN b ELSE [b EXCEPT !.m = "name", !.name = <<c>>]
       [] a.m = "name" -> [b EXCEPT !.name = Append(a.name, c)]
       [] OTHER -> b
REnd(a) == IF a.m = "name" THEN [vis |-> a.vis, name |-> TrimR(a.name)] ELSE Plain(a.all)
=============================================================================
