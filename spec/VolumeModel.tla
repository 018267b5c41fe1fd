----------------------------- MODULE VolumeModel -----------------------------
(* Texts grow token by token: first the beginning, then the unit, then the *)
(* end. The unit is then repeated. Two claims about the byte machine:      *)
(* texts with the same control have the same future, byte by byte, and a   *)
(* unit that leaves the control as it was once does so for ever, so that   *)
(* all of its repetitions give well-formed texts or none does.             *)
EXTENDS Volume, TLC
CONSTANTS HeadMax, UnitMax, TailMax, NMax

Tokens == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34>>, <<97>>, <<49>>, <<46>>, <<32>>, <<92>>}
Few == {<<93>>, <<125>>, <<34>>, <<49>>, <<32>>, <<44>>}
VARIABLES head, unit, tail, n, phase
vars == <<head, unit, tail, n, phase>>
Init == head = <<>> /\ unit = <<>> /\ tail = <<>> /\ n = 0 /\ phase = "head"
Grow ==
  \/ /\ phase = "head" /\ Len(head) < HeadMax /\ \E t \in Tokens : (head' = head \o t /\ After(head').m # "dead")
     /\ UNCHANGED <<unit, tail, n, phase>>
  \/ /\ phase \in {"head", "unit"} /\ Len(unit) < UnitMax /\ \E t \in Tokens : (unit' = unit \o t /\ After(head \o unit').m # "dead")
     /\ phase' = "unit" /\ UNCHANGED <<head, tail, n>>
  \/ /\ phase \in {"unit", "tail"} /\ Len(tail) < TailMax /\ \E t \in Few : tail' = tail \o t
     /\ phase' = "tail" /\ UNCHANGED <<head, unit, n>>
Repeat == phase \in {"unit", "tail", "repeat"} /\ n < NMax /\ n' = n + 1 /\ phase' = "repeat" /\ UNCHANGED <<head, unit, tail>>
Next == Grow \/ Repeat

Whole(k) == WellFormedText(Pumped(head, unit, k) \o tail)
\* the unit leaves the control alone at n: it does so later, and the texts are well-formed alike
Pumping == phase = "repeat" /\ Steady(head, unit, n - 1) => Steady(head, unit, n) /\ (Whole(n) <=> Whole(n - 1))
\* equal control, equal future
Bytes == {91, 93, 123, 125, 44, 58, 34, 97, 117, 49, 48, 45, 46, 101, 32, 116, 114, 92, 195, 169, 10, 1, 100, 68, 99}
SameFuture ==
  phase = "repeat" =>
    LET p == After(Pumped(head, unit, n - 1))   q == After(Pumped(head, unit, n))
    IN Control(p) = Control(q) => /\ \A b \in Bytes : Control(Step(p, b)) = Control(Step(q, b))
                                  /\ (Finish(p).m = "end") = (Finish(q).m = "end")
\* a list that is pumped has the same elements in the same order
Kept == phase = "repeat" /\ n > TupleMax + 1 /\ Usable(head, unit, tail) /\ Whole(n) =>
          Grown(Read(Pumped(head, unit, n) \o tail).v, Read(Pumped(head, unit, Base) \o tail).v)
=============================================================================
