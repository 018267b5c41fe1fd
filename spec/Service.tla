----------------------------- MODULE Service ------------------------------
(* What a call asks for, whatever interface it comes through.              *)
(*                                                                         *)
(* A call is a record                                                      *)
(*   i     interface: "lib", "cli", "wasm", "macro", "macro_input"         *)
(*   name  name of the root type, or NoName where none is given            *)
(*   o     the options given: a record of option names and values          *)
(*   m     output mode given beside the options (CLI flag), or ""          *)
(*   s     the sample                                                      *)
(* Its answer may depend on its key alone.                                 *)
EXTENDS Naturals, Sequences, TLC

Defaults == [
  output_mode |-> "rust", input_mode |-> "json", use_default_for_missing_fields |-> FALSE, deny_unknown_fields |-> FALSE,
  allow_option_vec |-> FALSE, field_visibility |-> "pub", collect_additional |-> FALSE,
  derives |-> "Default, Debug, Clone, PartialEq, serde_derive::Serialize, serde_derive::Deserialize",
  property_name_format |-> "", unwrap |-> "", import_style |-> "add_imports", infer_map_threshold |-> "", hints |-> <<>>]
\* the macro is put into code that may not have the imports
MacroDefaults == [Defaults EXCEPT !.import_style = "qualified_paths"]
NoName == "(none)"
DefaultName == "Root"

Alias(k, v) == IF k = "output_mode" /\ v = "kotlin" THEN "kotlin/jackson" ELSE v
Effective(o, defaults) == [k \in DOMAIN defaults |-> IF k \in DOMAIN o THEN Alias(k, o[k]) ELSE defaults[k]]
Key(c) ==
  LET eff == Effective(c.o, IF c.i \in {"macro", "macro_input"} THEN MacroDefaults ELSE Defaults)
  IN [name |-> IF c.name = NoName /\ c.i = "cli" THEN DefaultName ELSE c.name,
      opts |-> IF c.m = "" THEN eff ELSE [eff EXCEPT !.output_mode = Alias("output_mode", c.m)],
      sample |-> c.s]
=============================================================================
