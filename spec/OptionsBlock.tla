---------------------------- MODULE OptionsBlock ----------------------------
(***************************************************************************)
(* Options blocks: a machine over tokens that sets options one by one, and *)
(* the same said declaratively (a list of entries).                        *)
(* Tokens as in RustText; a raw string literal is a string literal.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Str(t) == t.t \in {"str", "raw"}
Name(t) == t.t = "id" \/ Str(t)

\* code points of the names that mean something
N(t) == CASE
     t = "output_mode" -> <<111,117,116,112,117,116,95,109,111,100,101>>
  [] t = "input_mode" -> <<105,110,112,117,116,95,109,111,100,101>>
  [] t = "derives" -> <<100,101,114,105,118,101,115>>
  [] t = "property_name_format" -> <<112,114,111,112,101,114,116,121,95,110,97,109,101,95,102,111,114,109,97,116>>
  [] t = "import_style" -> <<105,109,112,111,114,116,95,115,116,121,108,101>>
  [] t = "field_visibility" -> <<102,105,101,108,100,95,118,105,115,105,98,105,108,105,116,121>>
  [] t = "deny_unknown_fields" -> <<100,101,110,121,95,117,110,107,110,111,119,110,95,102,105,101,108,100,115>>
  [] t = "use_default_for_missing_fields" -> <<117,115,101,95,100,101,102,97,117,108,116,95,102,111,114,95,109,105,115,115,105,110,103,95,102,105,101,108,100,115>>
  [] t = "allow_option_vec" -> <<97,108,108,111,119,95,111,112,116,105,111,110,95,118,101,99>>
  [] t = "collect_additional" -> <<99,111,108,108,101,99,116,95,97,100,100,105,116,105,111,110,97,108>>
  [] t = "unwrap" -> <<117,110,119,114,97,112>>
  [] t = "infer_map_threshold" -> <<105,110,102,101,114,95,109,97,112,95,116,104,114,101,115,104,111,108,100>>
  [] t = "use_type" -> <<117,115,101,95,116,121,112,101>>
  [] t = "type_name" -> <<116,121,112,101,95,110,97,109,101>>
  [] t = "true" -> <<116,114,117,101>>
  [] OTHER -> <<102,97,108,115,101>>
Flags == {"deny_unknown_fields", "use_default_for_missing_fields", "allow_option_vec", "collect_additional"}
Texts == {"output_mode", "input_mode", "derives", "property_name_format", "import_style", "field_visibility", "unwrap", "infer_map_threshold"}
FlagOf == [f \in {N(x) : x \in Flags} |-> CHOOSE x \in Flags : N(x) = f]
TextOf == [f \in {N(x) : x \in Texts} |-> CHOOSE x \in Texts : N(x) = f]
IsPointer(s) == s = <<>> \/ Head(s) = 47
\* which words may be written without quotes: no Rust keywords (none of the options is one)
Keywordish == {N("true"), N("false")}

\* options: sets of flags, text options that were set (by name), hints in order
NoOptions == [flags |-> [f \in Flags |-> FALSE], texts |-> [x \in {} |-> <<>>], hints |-> <<>>]
SetFlag(o, f, b) == [o EXCEPT !.flags[f] = b]
SetText(o, x, v) == [o EXCEPT !.texts = [y \in DOMAIN @ \union {x} |-> IF y = x THEN v ELSE @[y]]]
AddHint(o, p, what, v) == [o EXCEPT !.hints = Append(@, [p |-> p, what |-> what, v |-> v])]

----------------------------------------------------------------------------
(* The machine: m what is expected, o the options so far, k the option that *)
(* is being set, p the pointer                                             *)
BStart == [m |-> "open", o |-> NoOptions, k |-> "", p |-> <<>>]
Refuse(b) == [b EXCEPT !.m = "refused"]
To(b, m) == [b EXCEPT !.m = m]
Key(b, t) ==
  IF ~Name(t) \/ (t.t = "id" /\ t.s \in Keywordish) THEN Refuse(b)
  ELSE IF t.s \in DOMAIN FlagOf THEN [b EXCEPT !.m = "flag", !.k = FlagOf[t.s]]
  ELSE IF t.s \in DOMAIN TextOf THEN [b EXCEPT !.m = "colon", !.k = TextOf[t.s]]
  ELSE IF Str(t) /\ IsPointer(t.s) THEN [b EXCEPT !.m = "hcolon", !.p = t.s]
  ELSE Refuse(b)
HintKey(b, t) ==
  IF Name(t) /\ t.s = N("use_type") THEN [b EXCEPT !.m = "hint:", !.k = "use_type"]
  ELSE IF Name(t) /\ t.s = N("type_name") THEN [b EXCEPT !.m = "hint:", !.k = "type_name"]
  ELSE Refuse(b)
BStep(b, t) ==
  CASE b.m = "open" -> IF t.t = "{" THEN To(b, "key") ELSE Refuse(b)
    [] b.m = "key" -> IF t.t = "}" THEN To(b, "end") ELSE Key(b, t)
    [] b.m = "flag" -> IF t.t = ":" THEN To(b, "bool")
                       ELSE IF t.t = "," THEN [b EXCEPT !.m = "key", !.o = SetFlag(@, b.k, TRUE)]
                       ELSE IF t.t = "}" THEN [b EXCEPT !.m = "end", !.o = SetFlag(@, b.k, TRUE)] ELSE Refuse(b)
    [] b.m = "bool" -> IF t.t = "id" /\ t.s \in Keywordish THEN [b EXCEPT !.m = "sep", !.o = SetFlag(@, b.k, t.s = N("true"))] ELSE Refuse(b)
    [] b.m = "colon" -> IF t.t = ":" THEN To(b, "text") ELSE Refuse(b)
    [] b.m = "text" -> IF Str(t) THEN [b EXCEPT !.m = "sep", !.o = SetText(@, b.k, t.s)] ELSE Refuse(b)
    [] b.m = "sep" -> IF t.t = "," THEN To(b, "key") ELSE IF t.t = "}" THEN To(b, "end") ELSE Refuse(b)
    [] b.m = "hcolon" -> IF t.t = ":" THEN To(b, "hopen") ELSE Refuse(b)
    [] b.m = "hopen" -> IF t.t = "{" THEN To(b, "hkey") ELSE Refuse(b)
    [] b.m = "hkey" -> IF t.t = "}" THEN To(b, "sep") ELSE HintKey(b, t)
    [] b.m = "hint:" -> IF t.t = ":" THEN To(b, "hval") ELSE Refuse(b)
    [] b.m = "hval" -> IF Str(t) THEN [b EXCEPT !.m = "hsep", !.o = AddHint(@, b.p, b.k, t.s)] ELSE Refuse(b)
    [] b.m = "hsep" -> IF t.t = "," THEN To(b, "hkey") ELSE IF t.t = "}" THEN To(b, "sep") ELSE Refuse(b)
    [] OTHER -> Refuse(b)                  \* after the end; or refused already
Block(tokens) == FoldLeft(BStep, BStart, tokens)
Accepted(b) == b.m = "end"

----------------------------------------------------------------------------
(* Declaratively: a block is a list of entries between braces, separated by *)
(* commas, one more comma allowed; its meaning is that of its entries.     *)
RECURSIVE Depth(_, _)
Depth(ts, i) == IF i = 0 THEN 0
                ELSE Depth(ts, i - 1) + (IF ts[i].t = "{" THEN 1 ELSE 0) - (IF ts[i].t = "}" /\ Depth(ts, i - 1) > 0 THEN 1 ELSE 0)
RECURSIVE SplitAt(_, _)
SplitAt(ts, cuts) ==                  \* cuts: positions of the commas
  IF cuts = {} THEN <<ts>>
  ELSE LET j == CHOOSE j \in cuts : \A k \in cuts : j >= k
       IN Append(SplitAt(SubSeq(ts, 1, j - 1), cuts \ {j}), SubSeq(ts, j + 1, Len(ts)))
Entries(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE LET parts == SplitAt(ts, {i \in DOMAIN ts : ts[i].t = "," /\ Depth(ts, i) = 0})
       IN IF Last(parts) = <<>> THEN Front(parts) ELSE parts
Braced(ts) == Len(ts) >= 2 /\ Head(ts).t = "{" /\ Last(ts).t = "}"
Inside(ts) == SubSeq(ts, 2, Len(ts) - 1)
NameIs(t, s) == Name(t) /\ t.s = s
IsHint(e) == Len(e) = 3 /\ Name(e[1]) /\ e[1].s \in {N("use_type"), N("type_name")} /\ e[2].t = ":" /\ Str(e[3])
IsFlag(e) == Name(e[1]) /\ e[1].s \in DOMAIN FlagOf /\ (Len(e) = 1 \/ (Len(e) = 3 /\ e[2].t = ":" /\ e[3].t = "id" /\ e[3].s \in Keywordish))
IsText(e) == Len(e) = 3 /\ Name(e[1]) /\ e[1].s \in DOMAIN TextOf /\ e[2].t = ":" /\ Str(e[3])
IsPointerEntry(e) == /\ Len(e) >= 4 /\ Str(e[1]) /\ IsPointer(e[1].s) /\ e[2].t = ":"
                     /\ Braced(SubSeq(e, 3, Len(e)))
                     /\ LET h == Entries(Inside(SubSeq(e, 3, Len(e)))) IN \A i \in DOMAIN h : h[i] # <<>> /\ IsHint(h[i])
IsEntry(e) == e # <<>> /\ (IsFlag(e) \/ IsText(e) \/ IsPointerEntry(e))
IsBlock(ts) == Braced(ts) /\ LET es == Entries(Inside(ts)) IN \A i \in DOMAIN es : IsEntry(es[i])
Apply(o, e) ==
  CASE IsFlag(e) -> SetFlag(o, FlagOf[e[1].s], Len(e) = 1 \/ e[3].s = N("true"))
    [] IsText(e) -> SetText(o, TextOf[e[1].s], e[3].s)
    [] OTHER -> LET h == Entries(Inside(SubSeq(e, 3, Len(e))))
                IN FoldLeft(LAMBDA a, x : AddHint(a, e[1].s, IF x[1].s = N("use_type") THEN "use_type" ELSE "type_name", x[3].s), o, h)
Meaning(ts) == FoldLeft(Apply, NoOptions, Entries(Inside(ts)))

----------------------------------------------------------------------------
(* Macro arguments: a name, a sample and perhaps an options block, which   *)
(* may be put into a string literal. Lexed gives the tokens of a text.     *)
Args(tokens, Lexed(_)) ==
  LET bad == [ok |-> FALSE, name |-> <<>>, sample |-> <<>>, o |-> NoOptions, given |-> FALSE]
      ok(o, given) == [ok |-> TRUE, name |-> tokens[1].s, sample |-> tokens[3].s, o |-> o, given |-> given]
  IN IF Len(tokens) < 3 \/ ~Str(tokens[1]) \/ tokens[2].t # "," \/ ~Str(tokens[3]) THEN bad
     ELSE IF Len(tokens) = 3 THEN ok(NoOptions, FALSE)
     ELSE IF tokens[4].t # "," THEN bad
     ELSE LET rest == SubSeq(tokens, 5, Len(tokens))
              b == Block(IF rest # <<>> /\ Str(rest[1]) THEN (IF Len(rest) = 1 THEN Lexed(rest[1].s) ELSE <<>>) ELSE rest)
          IN IF Accepted(b) THEN ok(b.o, TRUE) ELSE bad
=============================================================================
