---------------------------- MODULE WebOptions ----------------------------
(* What the controls of the web page ask the library for.                  *)
(* Settings: [text |-> control -> code points, tick |-> BOOLEAN, extra |-> *)
(* entries]: the text of each text control, the box for additional         *)
(* properties, and the extra options, which are entries [k |-> name, v |-> *)
(* tokens] (none if what was entered is not an object in JSON).            *)
EXTENDS OptionsBlock
TextControls == << <<"outputmode", "output_mode">>, <<"inputmode", "input_mode">>, <<"propertynameformat", "property_name_format">>,
                   <<"importstyle", "import_style">>, <<"unwrappath", "unwrap">>, <<"infermapthreshold", "infer_map_threshold">> >>
Lit(s) == [t |-> "str", s |-> s]
Punct(t) == [t |-> t, s |-> <<>>]
Word(b) == [t |-> "id", s |-> N(IF b THEN "true" ELSE "false")]
\* controls as entries of an options block
Base(s) == [i \in DOMAIN TextControls |-> [k |-> N(TextControls[i][2]), v |-> <<Lit(s.text[TextControls[i][1]])>>]]
           \o << [k |-> N("collect_additional"), v |-> <<Word(s.tick)>>] >>
\* extra options replace what the controls say, and add to it
Replaces(x, k) == \E j \in DOMAIN x : x[j].k = k
LastOf(x, k) == x[CHOOSE j \in DOMAIN x : x[j].k = k /\ \A l \in DOMAIN x : x[l].k = k => l <= j]
Merged(b, x) == [i \in DOMAIN b |-> IF Replaces(x, b[i].k) THEN LastOf(x, b[i].k) ELSE b[i]]
                \o SelectSeq(x, LAMBDA e : ~Replaces(b, e.k) /\ e = LastOf(x, e.k))
RECURSIVE Listed(_)
Listed(es) == IF es = <<>> THEN <<>> ELSE <<Lit(Head(es).k), Punct(":")>> \o Head(es).v \o (IF Len(es) = 1 THEN <<>> ELSE <<Punct(",")>> \o Listed(Tail(es)))
Message(s) == <<Punct("{")>> \o Listed(Merged(Base(s), s.extra)) \o <<Punct("}")>>
\* what the library makes of that message
Asked(s) == Block(Message(s))
\* a blank stands for no format and for no threshold
Blank == {"property_name_format", "infer_map_threshold"}
Given(texts) == [x \in {x \in DOMAIN texts : x \notin Blank \/ texts[x] # <<>>} |-> texts[x]]

(* The same said directly: the extra options, and what the controls say of *)
(* the options that those leave alone.                                     *)
ExtraTokens(s) == <<Punct("{")>> \o Listed(s.extra) \o <<Punct("}")>>
Sensible(s) == IsBlock(ExtraTokens(s))
OptionNames == {TextControls[i][2] : i \in DOMAIN TextControls}
ControlOf(x) == (CHOOSE i \in DOMAIN TextControls : TextControls[i][2] = x)
Direct(s) ==
  LET m == Meaning(ExtraTokens(s))
  IN [flags |-> [f \in Flags |-> IF f = "collect_additional" /\ ~Replaces(s.extra, N(f)) THEN s.tick ELSE m.flags[f]],
      texts |-> [x \in OptionNames \cup DOMAIN m.texts |-> IF x \in DOMAIN m.texts THEN m.texts[x] ELSE s.text[TextControls[ControlOf(x)][1]]],
      hints |-> m.hints]
=============================================================================
