----------------------------- MODULE TraceWeb -----------------------------
(* Sessions of the page with the worker, and what was shown once           *)
(* everything had settled. Values of settings and options are JSON texts.  *)
EXTENDS TraceBase, WebSession
Field == [typename |-> "name", outputmode |-> "output_mode", inputmode |-> "input_mode", propertynameformat |-> "property_name_format",
          importstyle |-> "import_style", unwrappath |-> "unwrap", collectadditional |-> "collect_additional", infermapthreshold |-> "infer_map_threshold"]
\* options a request is made with: the controls, and what the extra options add or replace
OptionsOf(s) ==
  LET base == [o \in {Field[k] : k \in DOMAIN s \cap DOMAIN Field} |-> s[CHOOSE k \in DOMAIN Field : Field[k] = o]]
  IN s.extra @@ [o \in DOMAIN base \ {"name"} |-> base[o]]
\* no value is the same as a value that asks for nothing
Given(o) == [k \in {k \in DOMAIN o : o[k] \notin {"\"\"", "false"}} |-> o[k]]
Extension == ("\"rust\"" :> "rs") @@ ("\"typescript\"" :> "ts") @@ ("\"typescript/typealias\"" :> "ts") @@ ("\"zod\"" :> "ts") @@ ("\"kotlin/jackson\"" :> "kt")
             @@ ("\"kotlin/kotlinx\"" :> "kt") @@ ("\"python\"" :> "py") @@ ("\"json_schema\"" :> "json") @@ ("\"shape\"" :> "json")
LookTags(e, i) ==
  LET l == e.looks[i]
      c0 == Chosen([First(e.settings) EXCEPT !.v = e.text], SubSeq(e.acts, 1, l.acts))
      c == [c0 EXCEPT !.ok = @ \/ c0.src = "text"]
      works == l.wasm = "ok" /\ Request(c).v # "boom"
      want == Wanted(c, works)
      o == OptionsOf(c.s)
  IN (IF l.settled THEN {} ELSE {"does-not-settle"})
     \cup (IF l.spinner THEN {"waits-forever"} ELSE {})
     \cup (IF want.a # l.obs.a THEN {IF want.a = "error" THEN "shows-" \o l.obs.a \o "-instead-of-an-error" ELSE "shows-" \o l.obs.a}
           ELSE IF want.a = "error" THEN {}
           ELSE (IF l.obs.v # want.r.v THEN {"not-the-input-last-chosen"} ELSE {})
                \cup (IF l.obs.name # c.s.typename THEN {"not-the-name-last-chosen"} ELSE {})
                \cup (IF Given(l.obs.options) # Given(o) THEN {"not-the-settings-last-chosen"} ELSE {})
                \cup (IF l.file # l.obs.name \o "." \o Extension[o.output_mode] THEN {"name-of-download"} ELSE {}))
     \cup (IF l.download THEN {} ELSE {"download-is-not-what-is-shown"})
\* a page that is opened again shows in its controls what was last chosen, or nothing but its defaults
OpenTags(e, i) ==
  LET a == e.acts[i]
      c == Chosen([First(e.settings) EXCEPT !.v = e.text], SubSeq(e.acts, 1, i))
  IN IF a.a \notin {"reload", "forget"} THEN {}
     ELSE (IF a.text = c.v THEN {} ELSE {"text-not-kept"})
          \cup {"not-kept-" \o k : k \in {k \in DOMAIN c.s : k \notin DOMAIN a.s \/ a.s[k] # c.s[k]}}
Tags(e) == UNION {LookTags(e, i) : i \in DOMAIN e.looks} \cup UNION {OpenTags(e, i) : i \in DOMAIN e.acts}
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
