--------------------------- MODULE WebOptionsModel ---------------------------
(* A user sets controls one after the other; whatever they hold, the       *)
(* message the page sends means what they say.                             *)
EXTENDS WebOptions, TLC, Json
CONSTANTS MaxSets, Emit
V(c) == CASE c \in {"propertynameformat", "infermapthreshold", "unwrappath"} -> {<<>>, <<97>>} [] OTHER -> {<<97>>, <<98>>}
E(k, v) == [k |-> k, v |-> v]
Hint(t, s) == <<Punct("{"), Lit(N(t)), Punct(":"), Lit(s), Punct("}")>>
Extras == { <<>>, <<E(N("output_mode"), <<Lit(<<99>>)>>)>>, <<E(N("derives"), <<Lit(<<>>)>>)>>, <<E(N("collect_additional"), <<Word(FALSE)>>)>>,
            <<E(N("unwrap"), <<Lit(<<>>)>>), E(<<47, 97>>, Hint("use_type", <<100>>))>>, <<E(N("infer_map_threshold"), <<Punct("other")>>)>>,
            <<E(<<47>>, Hint("type_name", <<100>>)), E(N("deny_unknown_fields"), <<Word(TRUE)>>), E(N("property_name_format"), <<Lit(<<>>)>>)>>,
            <<E(<<>>, Hint("use_type", <<>>)), E(N("collect_additional"), <<Word(TRUE)>>)>>, <<E(<<120>>, <<Word(TRUE)>>)>> }
Controls == {TextControls[i][1] : i \in DOMAIN TextControls}
VARIABLES s, n
Init == n = 0 /\ s = [text |-> [c \in Controls |-> CHOOSE v \in V(c) : v \in {<<>>, <<97>>}], tick |-> FALSE, extra |-> <<>>]
Next == /\ n < MaxSets /\ n' = n + 1
        /\ \/ \E c \in Controls : \E v \in V(c) \ {s.text[c]} : s' = [s EXCEPT !.text[c] = v]
           \/ s' = [s EXCEPT !.tick = ~@]
           \/ \E x \in Extras \ {s.extra} : s' = [s EXCEPT !.extra = x]
View == s
Means == Accepted(Asked(s)) <=> Sensible(s)
Agrees == Accepted(Asked(s)) => Asked(s).o.flags = Direct(s).flags /\ Asked(s).o.texts = Direct(s).texts /\ ToSet(Asked(s).o.hints) = ToSet(Direct(s).hints)
Complete == Accepted(Asked(s)) => OptionNames \subseteq DOMAIN Asked(s).o.texts
\* setting a control changes its option and no other, unless extra options say otherwise
Local == \A c \in Controls : \A v \in V(c) :
  LET x == (CHOOSE i \in DOMAIN TextControls : TextControls[i][1] = c)
      o == TextControls[x][2]
      a == Direct(s)  b == Direct([s EXCEPT !.text[c] = v])
  IN Sensible(s) => /\ a.flags = b.flags /\ a.hints = b.hints /\ \A y \in DOMAIN a.texts \ {o} : a.texts[y] = b.texts[y]
                    /\ b.texts[o] = IF Replaces(s.extra, N(o)) THEN a.texts[o] ELSE v
Vectors == Emit => PrintT("SET " \o ToJson([text |-> s.text, tick |-> s.tick, extra |-> s.extra]))
=============================================================================
