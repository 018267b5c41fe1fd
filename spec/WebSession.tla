---------------------------- MODULE WebSession ----------------------------
(* What the web page has to show for a history of user actions.            *)
(* Actions: [a |-> "type", v |-> text, long |-> a million characters or    *)
(* more], [a |-> "example", v |-> json, long, s |-> settings it brings],   *)
(* [a |-> "pick", v |-> content, ok |-> can be  *)
(* read, small |-> shown as text], [a |-> "clear"], [a |-> "set", s |->    *)
(* settings], [a |-> "reload", empty |-> what fields without a value are   *)
(* filled with], [a |-> "forget", fresh |-> settings] (opened again with   *)
(* nothing usable left of earlier visits). Settings are records; actions   *)
(* change the fields they mention.                                         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
First(settings) == [src |-> "text", v |-> "", ok |-> TRUE, small |-> TRUE, long |-> FALSE, s |-> settings]
\* what is kept when the page is left: a text that is not too long, from the box or a small file; the settings
Kept(c) == IF (c.src = "text" \/ c.small) /\ c.ok /\ ~c.long THEN c.v ELSE ""
\* (TLCEval: functions are evaluated at once, not again at each use)
Reopened(s, empty) == TLCEval([k \in DOMAIN s |-> IF k \in DOMAIN empty /\ s[k] = "" THEN empty[k] ELSE s[k]])
Override(s, t) == TLCEval([k \in DOMAIN s |-> IF k \in DOMAIN t THEN t[k] ELSE s[k]])
Act(c, act) ==
  CASE act.a = "type" -> [c EXCEPT !.src = "text", !.v = act.v, !.ok = TRUE, !.long = act.long]
    [] act.a = "example" -> [c EXCEPT !.src = "text", !.v = act.v, !.ok = TRUE, !.long = act.long, !.s = Override(@, act.s)]
    [] act.a = "pick" -> [c EXCEPT !.src = "file", !.v = act.v, !.ok = act.ok, !.small = act.small, !.long = FALSE]
    [] act.a = "reload" -> [c EXCEPT !.src = "text", !.v = Kept(c), !.ok = TRUE, !.long = FALSE, !.s = Reopened(@, act.empty)]
    [] act.a = "forget" -> First(act.fresh)
    [] act.a = "clear" -> [c EXCEPT !.src = "text", !.v = "", !.ok = TRUE, !.long = FALSE]
    [] act.a = "set" -> [c EXCEPT !.s = Override(@, act.s)]
Chosen(c, acts) == FoldLeft(Act, c, acts)
\* the request it comes to; no text is an empty object
Request(c) == [v |-> IF c.v = "" THEN "{}" ELSE c.v, s |-> c.s]
\* works: the module is there and generation of this text does not fail in it
Wanted(c, works) == IF c.ok /\ works THEN [a |-> "types", r |-> Request(c)] ELSE [a |-> "error", r |-> Request(c)]
Shows(c, works, obs) == obs.a = Wanted(c, works).a /\ (obs.a = "types" => obs.r = Request(c))
=============================================================================
