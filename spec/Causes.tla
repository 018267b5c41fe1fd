------------------------------- MODULE Causes -------------------------------
(***************************************************************************)
(* What is wrong with a request that gives no types.                       *)
(*   Stages   a request passes through stages; the first that fails names  *)
(*            the cause                                                    *)
(*   JsonCauses(b)  what may be named for a sample of bytes b that was read *)
(*            to its end; {} if nothing is wrong with it                   *)
(* Causes of the JSON stage:                                               *)
(*   "end"     the sample breaks off, though it could go on to a good end  *)
(*   "utf8"    a string is not UTF-8        "escape"  not an escape        *)
(*   "deep"    too many levels are open     "json"    anything else        *)
(* Reading goes token by token, so where a token is out of place something *)
(* wrong inside of that token may be named just as well.                   *)
(***************************************************************************)
EXTENDS Fetch, Pointers

\* the machine up to the byte it dies of: q the state before byte i
Walk(b) == FoldLeft(LAMBDA a, x : IF a.dead THEN a
                                  ELSE LET n == Step(a.q, x) IN IF n.m = "dead" THEN [a EXCEPT !.dead = TRUE] ELSE [q |-> n, i |-> a.i + 1, dead |-> FALSE],
                    [q |-> Start, i |-> 1, dead |-> FALSE], b)

(* The rest of a string, where its encoding is not looked at: "closed", or what goes wrong *)
Sur == {"json", "escape", "end", "utf8"}
RestStep(a, x) ==
  CASE a.m = "done" -> a
    [] a.m = "str" -> IF x = QUOTE THEN [m |-> "done", r |-> {"closed"}] ELSE IF x = BSL THEN [a EXCEPT !.m = "esc"]
                      ELSE IF x < 32 THEN [m |-> "done", r |-> {"json"}] ELSE a
    [] a.m = "esc" -> IF x = 117 THEN [a EXCEPT !.m = "u1"] ELSE IF x \in {QUOTE, BSL, SLASH, 98, 102, 110, 114, 116} THEN [a EXCEPT !.m = "str"]
                      ELSE [m |-> "done", r |-> {"escape"}]
    [] ~IsHex(x) -> [m |-> "done", r |-> {"escape"}]
    [] a.m = "u1" -> [a EXCEPT !.m = IF x \in {68, 100} THEN "u2d" ELSE "u2"]
    [] a.m = "u2d" /\ HexVal(x) >= 8 -> [m |-> "done", r |-> Sur]
    [] a.m \in {"u2", "u2d"} -> [a EXCEPT !.m = "u3"]
    [] a.m = "u3" -> [a EXCEPT !.m = "u4"]
    [] OTHER -> [a EXCEPT !.m = "str"]
Rest(b, i) == LET a == FoldLeft(RestStep, [m |-> "str", r |-> {"end"}], SubSeq(b, i, Len(b))) IN a.r

Exotic(b, i) == \E j \in i..Len(b) : b[j] >= 128
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
\* a token where none of its kind is expected: out of place, or wrong in itself
OutOfPlace(q, b, i) ==
  {"json"} \union
  CASE b[i] = QUOTE -> (Rest(b, i + 1) \ {"closed"}) \union (IF Exotic(b, i) THEN {"utf8"} ELSE {})
    [] b[i] \in {LBRACE, LBRACK} /\ Len(q.st) >= MaxNesting -> {"deep"}
    [] b[i] \in {116, 102, 110} -> IF \E w \in {True_, False_, Null_} : Len(b) - i + 1 < Len(w) /\ Prefix(SubSeq(b, i, Len(b)), w) THEN {"end"} ELSE {}
    [] OTHER -> {}

Utf8Modes == {"c1", "c2", "c3", "cE0", "cED", "cF0", "cF4"}
HexModes == {"u1", "u2", "u2d", "u3", "u4", "h3", "h4", "l1", "l2", "l3", "l4"}
StringCauses(q, b, i) ==
  LET encoding == LET r == Rest(b, i) IN IF r = {"closed"} THEN {"utf8"} ELSE r \union {"utf8"}
  IN CASE q.m \in Utf8Modes -> encoding
       [] q.m = "str" -> IF b[i] < 32 THEN {"json"} ELSE encoding
       [] q.m = "esc" -> {"escape"}
       [] q.m \in HexModes /\ ~IsHex(b[i]) -> {"escape"}
       \* half of a surrogate pair
       [] OTHER -> {"json", "escape"} \union (Rest(b, i) \ {"closed"})
DeathCauses(q, b, i) ==
  IF q.m \in {"value", "value0"} /\ b[i] \in {LBRACE, LBRACK} THEN {"deep"}
  ELSE IF q.m \in Between THEN OutOfPlace(q, b, i)
  ELSE IF q.m = "lit" THEN {"json"}
  ELSE IF q.m \in NumModes THEN IF NumGoesOn(b[i]) \/ q.m \notin NumEnds THEN {"json"} ELSE OutOfPlace(NumDone(q), b, i)
  ELSE StringCauses(q, b, i)

JsonCauses(b) ==
  LET w == Walk(b)
  IN IF w.dead THEN DeathCauses(w.q, b, w.i)
     ELSE IF Finish(w.q).m = "end" THEN {}
     ELSE IF w.q.m \in NumModes THEN {"end", "json"} ELSE {"end"}
\* where reading fails after these bytes, that is named, if nothing was wrong before
FaultCauses(b) == {"io"} \union (IF Walk(b).dead THEN JsonCauses(b) ELSE {})

\* a transfer that gives no types; a connection that is reset may lose what was sent before, and its head
TransferCauses(doc, kind, status, cuts, end) ==
  LET sent == SubSeq(doc, 1, FoldLeft(+, 0, cuts))
  IN IF status >= 400 THEN {"fetch"}
     ELSE IF Proper(kind, end, Len(sent), Len(doc)) THEN JsonCauses(sent)
     ELSE FaultCauses(sent) \union (IF end = "reset" THEN {"fetch"} ELSE {})

----------------------------------------------------------------------------
(* Stages: reading the request (macro text, options), opening the source,  *)
(* reading and parsing it                                                  *)
Stages == <<"macro", "open", "read", "parse">>
\* fails: the stages that would fail
FirstFailing(fails) == IF fails = {} THEN "none" ELSE LET i == CHOOSE i \in DOMAIN Stages : Stages[i] \in fails /\ \A j \in 1..(i - 1) : Stages[j] \notin fails IN Stages[i]
\* source: "file", "url", "text" or "sql"; b: the sample as far as there is one
StageCauses(fails, source, b) ==
  CASE FirstFailing(fails) = "macro" -> {"macro"}
    [] FirstFailing(fails) = "open" -> IF source = "url" THEN {"fetch"} ELSE {"file", "io"}
    [] FirstFailing(fails) = "read" -> {"io", "file"}
    [] FirstFailing(fails) = "parse" -> IF source = "sql" THEN {"sql"} ELSE JsonCauses(b)
    [] OTHER -> {}
\* a well-formed sample v: options that do not fit it (an error is certain if the pointer designates nothing or a map is wanted of what is no object)
PartCauses(v, unwrap, hints) ==
  LET ns == Nodes(v, UnwrapTokens(unwrap))
      hs == [i \in DOMAIN hints |-> [p |-> HintTokens(hints[i].p), t |-> hints[i].t]]
  IN IF ns = <<>> THEN {"nomatch"} ELSE IF \E i \in DOMAIN ns : HasBad(Annotate(ns[i], hs)) THEN {"hint"} ELSE {}
=============================================================================
