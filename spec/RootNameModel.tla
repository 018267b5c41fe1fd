--------------------------- MODULE RootNameModel ---------------------------
(* All texts of up to MaxLen atoms: the machine reads the specifier and    *)
(* the name that the declarative reading gives, and there is at most one.  *)
EXTENDS RootName, TLC, Json
CONSTANTS MaxLen, EmitLen
Atoms == {Pub, <<LPar>>, <<RPar>>, <<Blank>>, <<99, 114, 97, 116, 101>>, <<105, 110, 32, 97, 58, 58, 98>>, <<70, 111, 111>>, <<112>>}
VARIABLES s, a, n
Init == s = <<>> /\ a = RStart /\ n = 0
RECURSIVE Fold(_, _)
Fold(b, t) == IF t = <<>> THEN b ELSE Fold(RStep(b, Head(t)), Tail(t))
Next == n < MaxLen /\ \E t \in Atoms : s' = s \o t /\ a' = Fold(a, t) /\ n' = n + 1
Agrees == REnd(a) = Root(s)
OneReading == \A r, q \in Readings(s) : r = q
Whole == Readings(s) = {} => REnd(a) = Plain(s)
\* nothing of the text is lost but the blanks between
Kept == LET r == REnd(a) IN r.vis # None => StartsWith(TrimL(s), r.vis) /\ \E k \in 1..Len(s) : Trim(s) = r.vis \o [i \in 1..k |-> Blank] \o r.name
Vectors == n <= EmitLen /\ ~Odd(s) => PrintT("NAME " \o ToJson([raw |-> s, vis |-> Root(s).vis, name |-> Root(s).name]))
=============================================================================
