---------------------------- MODULE TraceOptions ----------------------------
(* Recorded events: a text (code points) read as options block, as macro   *)
(* arguments or as full macro (via), and what the code made of it: res,    *)
(* and the options as texts (got), name and sample (code points).          *)
(* pass = "expect": only say what the text means. pass = "judge": compare. *)
(* same: the code's options equal those for a plain spelling of the meaning *)
EXTENDS TraceBase, RustText, OptionsBlock, OptionValues

Chars(t) == t            \* texts are code points throughout
MacroOpen == <<106,115,111,110,95,116,121,112,101,103,101,110,33,40>>   \* json_typegen!(
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ IsWhite(Head(s)) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ IsWhite(Last(s)) THEN TrimR(Front(s)) ELSE s
Unwrapped(text) ==                   \* arguments of a full macro, or <<-1>> if it is none
  LET t == TrimR(TrimL(text))  n == Len(t)  k == Len(MacroOpen)
  IN IF n >= k + 2 /\ SubSeq(t, 1, k) = MacroOpen /\ t[n] = 59 /\ t[n - 1] = 41
     THEN [ok |-> TRUE, text |-> SubSeq(t, k + 1, n - 2)] ELSE [ok |-> FALSE, text |-> <<>>]
LexTokens(s) == Lex(s).out
NoArgs == [ok |-> FALSE, name |-> <<>>, sample |-> <<>>, o |-> NoOptions, given |-> FALSE]
\* text that other readers may take differently: not judged
RECURSIVE OddBlock(_)
OddBlock(s) == LET q == Lex(s)
               IN \/ q.odd \/ q.tail
                  \* a raw string literal as the name of an option
                  \/ \E i \in DOMAIN q.out : q.out[i].t = "raw" /\ i > 1 /\ q.out[i - 1].t \in {"{", ","}
Args3(s) == Args(LexTokens(s), LexTokens)
OddArgs(s) == LET q == Lex(s)
              IN \/ q.odd \/ q.tail
                 \/ \E i \in DOMAIN q.out : i > 5 /\ q.out[i].t = "raw" /\ q.out[i - 1].t \in {"{", ","}
                 \/ Len(q.out) = 5 /\ Str(q.out[5]) /\ OddBlock(q.out[5].s)
Expect(e) ==
  CASE e.via = "block" -> LET b == Block(LexTokens(e.text))
                          IN [ok |-> Accepted(b), name |-> <<>>, sample |-> <<>>, o |-> b.o, given |-> TRUE]
    [] e.via = "macro_input" -> Args3(e.text)
    [] OTHER -> LET u == Unwrapped(e.text) IN IF u.ok THEN Args3(u.text) ELSE NoArgs
Odd(e) ==
  CASE e.via = "block" -> OddBlock(e.text)
    [] e.via = "macro_input" -> OddArgs(e.text)
    [] OTHER -> LET u == Unwrapped(e.text) IN u.ok /\ OddArgs(u.text)

\* unknown values of text options are not judged
DefaultOf(x, macro) ==
  CASE x = "output_mode" -> "Rust" [] x = "input_mode" -> "Json" [] x = "property_name_format" -> "none"
    [] x = "import_style" -> IF macro THEN "QualifiedPaths" ELSE "AddImports"
    [] x = "field_visibility" -> "pub" [] x = "unwrap" -> "" [] x = "infer_map_threshold" -> "none"
    [] x = "derives" -> "Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize" [] OTHER -> ""
\* got.<x> is a text (of the code); val.<x> the text that was given, as the tokens have it (both made by the recorder from code points)
ValueMis(x, set, given, got, macro) ==
  IF ~set THEN got # DefaultOf(x, macro)
  ELSE CASE x \in {"derives", "field_visibility", "unwrap"} -> got # given
         [] x = "infer_map_threshold" -> ~(got = "unjudged" \/ got = given)
         [] OTHER -> \E i \in DOMAIN Table(x) : Table(x)[i][1] = given /\ Table(x)[i][2] # got

\* e.vals[x]: the given values as texts, for the options the recorder was told (in the first pass) that the text sets
Judge(e) ==
  LET w == Expect(e)
  IN IF e.res = "crash" THEN {"crash"}
     ELSE IF Odd(e) THEN {}
     ELSE IF ~w.ok THEN (IF e.res = "err" THEN {} ELSE {"accepted"})
     ELSE IF e.res = "err" THEN {"rejected"}
     ELSE (IF \E f \in Flags \ {"allow_option_vec"} : e.got[f] # w.o.flags[f] THEN {"flag"} ELSE {})
          \union (IF \E x \in Texts : ValueMis(x, x \in DOMAIN w.o.texts, IF x \in DOMAIN e.vals THEN e.vals[x] ELSE "", e.got[x], e.via # "block") THEN {"value"} ELSE {})
          \union (IF e.got.type_visibility # "pub" THEN {"value"} ELSE {})
          \union (IF DOMAIN w.o.texts \subseteq DOMAIN e.vals THEN {} ELSE {"unusable"})
          \union (IF e.via # "block" /\ (e.name # w.name \/ e.sample # w.sample) THEN {"argument"} ELSE {})
          \union (IF e.same THEN {} ELSE {"differs"})
Tell(e) == LET w == Expect(e)
           IN PrintT("EXPECT " \o ToJson([id |-> e.id, ok |-> w.ok, odd |-> Odd(e), flags |-> {f \in Flags : w.o.flags[f]},
                                          texts |-> w.o.texts, hints |-> w.o.hints, given |-> w.given]))
\* pairs of blocks with meanings o1, o2: their options are the same iff the meanings are
Tags(e) ==
  CASE e.pass = "expect" -> IF Tell(e) THEN {} ELSE {}
    [] OTHER -> Judge(e)
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
