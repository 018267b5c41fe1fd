------------------------------- MODULE Robust -------------------------------
(* Every run ends, with types or with an error. Texts of any size are       *)
(* described as u v^n w x^n y (sequences of tokens).                        *)
EXTENDS Integers, Sequences
Outcomes == {"types", "error"}
Opens == {"[", "{"}
Closes == {"]", "}"}
Bigger(a, b) == IF a > b THEN a ELSE b
Delta(t) == IF t \in Opens THEN 1 ELSE IF t \in Closes THEN -1 ELSE 0
RECURSIVE Net(_)
Net(s) == IF s = <<>> THEN 0 ELSE Delta(Head(s)) + Net(Tail(s))
\* the highest level reached within, relative to the start
RECURSIVE Peak(_)
Peak(s) == IF s = <<>> THEN 0 ELSE Bigger(0, Delta(Head(s)) + Peak(Tail(s)))
\* of n times s
PeakN(s, n) == IF n = 0 THEN 0 ELSE IF Net(s) > 0 THEN (n - 1) * Net(s) + Peak(s) ELSE Peak(s)
\* the depth of a pumped text, without building it
Depth(p) ==
  LET a == Net(p.u)
      b == a + p.n * Net(p.v)
      c == b + Net(p.w)
      d == c + p.n * Net(p.x)
  IN Bigger(Peak(p.u), Bigger(a + PeakN(p.v, p.n), Bigger(b + Peak(p.w), Bigger(c + PeakN(p.x, p.n), d + Peak(p.y)))))
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Expand(p) == p.u \o Times(p.v, p.n) \o p.w \o Times(p.x, p.n) \o p.y

\* a step of nesting around what is inside: opening tokens, closing tokens
Frames == << [o |-> <<"[">>, c |-> <<"]">>], [o |-> <<"{", "k", ":">>, c |-> <<"}">>],
             [o |-> <<"[", "1", ",">>, c |-> <<"]">>], [o |-> <<"[">>, c |-> <<",", "null", "]">>],
             [o |-> <<"{", "j", ":", "1", ",", "k", ":">>, c |-> <<"}">>], [o |-> <<"{", "k", ":">>, c |-> <<",", "j", ":", "s", "}">>],
             [o |-> <<"[", "[", "]", ",">>, c |-> <<"]">>], [o |-> <<"{", "j", ":", "{", "}", ",", "k", ":">>, c |-> <<",", "m", ":", "[", "]", "}">>] >>
Leaves == << <<"1">>, <<"null">>, <<"[", "]">>, <<"{", "}">> >>
RECURSIVE Around(_, _)
Around(fs, how) == IF fs = <<>> THEN <<>> ELSE IF how = "o" THEN Frames[Head(fs)].o \o Around(Tail(fs), how) ELSE Around(Tail(fs), how) \o Frames[Head(fs)].c
Nested(fs, leaf, n) == [u |-> <<>>, v |-> Around(fs, "o"), w |-> Leaves[leaf], x |-> Around(fs, "c"), y |-> <<>>, n |-> n]
=============================================================================
