------------------------------- MODULE Naming -------------------------------
(***************************************************************************)
(* Identifiers for JSON keys: when they are legal, and which key an        *)
(* identifier is bound to by the library that reads the JSON (serde,       *)
(* Jackson, kotlinx.serialization, pydantic). Also the algorithm by which  *)
(* identifiers are chosen (NamingModel checks it against the rules).       *)
(***************************************************************************)
EXTENDS Text, Sequences

RustKeywords == {
  "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
  "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait",
  "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
  "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen"}
KotlinKeywords == {
  "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in", "interface", "is", "null", "object",
  "package", "return", "super", "this", "throw", "true", "try", "typealias", "typeof", "val", "var", "when", "while"}
PythonKeywords == {
  "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif",
  "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or",
  "pass", "raise", "return", "try", "while", "with", "yield"}
\* attributes of pydantic's BaseModel, which a field must not shadow
BaseModelAttributes == {
  "Config", "construct", "copy", "dict", "fields", "from_orm", "json", "parse_file", "parse_obj", "parse_raw", "schema",
  "schema_json", "update_forward_refs", "validate"} \ {"fields"}
TypeScriptReserved == {
  "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export",
  "extends", "false", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "null", "return", "super",
  "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "implements", "interface", "let",
  "package", "private", "protected", "public", "static", "yield",
  "any", "boolean", "number", "string", "symbol", "never", "unknown", "object", "bigint", "undefined"}

\* letters beyond ASCII are left to the parser of the language
IdentStart(c) == c \in Alpha \/ c = "_" \/ ~IsAscii(c)
IdentPart(c) == IdentStart(c) \/ c \in Digits
IsIdent(s) == s # "" /\ IdentStart(Ch(s, 1)) /\ \A i \in 2..Len(s) : IdentPart(Ch(s, i))
IsDollarIdent(s) == s # "" /\ (IdentStart(Ch(s, 1)) \/ Ch(s, 1) = "$")
                    /\ \A i \in 2..Len(s) : IdentPart(Ch(s, i)) \/ Ch(s, i) = "$"

RawRust(id) == StartsWith(id, "r#")
BareRust(id) == IF RawRust(id) THEN SubSeq(id, 3, Len(id)) ELSE id
LegalField(lang, id) ==
  CASE lang = "rust" -> IF RawRust(id) THEN IsIdent(BareRust(id)) /\ BareRust(id) \notin {"self", "Self", "super", "crate", "_"}
                        ELSE IsIdent(id) /\ id \notin RustKeywords /\ id # "_"
    [] lang \in {"jackson", "kotlinx"} -> IsIdent(id) /\ id \notin KotlinKeywords /\ ~AllChars(id, {"_"})
    [] lang = "py" -> IsIdent(id) /\ id \notin PythonKeywords /\ id \notin BaseModelAttributes /\ Ch(id, 1) # "_"
    [] OTHER -> TRUE
LegalType(lang, id) ==
  CASE lang = "rust" -> LegalField("rust", id)
    [] lang \in {"jackson", "kotlinx"} -> LegalField(lang, id)
    [] lang = "py" -> IsIdent(id) /\ id \notin PythonKeywords
    [] OTHER -> IsDollarIdent(id) /\ id \notin TypeScriptReserved

----------------------------------------------------------------------------
(* What the libraries make of an identifier                                *)
RECURSIVE Pascal(_, _, _)
Pascal(s, i, cap) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "_" THEN Pascal(s, i + 1, TRUE)
  ELSE (IF cap THEN Up(Ch(s, i)) ELSE Ch(s, i)) \o Pascal(s, i + 1, FALSE)
SerdeRename(fmt, id) ==      \* serde's rename_all on a field
  CASE fmt \in {"", "none", "lowercase", "snake_case"} -> id
    [] fmt \in {"UPPERCASE", "SCREAMING_SNAKE_CASE"} -> Upper(id)
    [] fmt = "PascalCase" -> Pascal(id, 1, TRUE)
    [] fmt = "camelCase" -> LowerFirst(Pascal(id, 1, TRUE))
    [] fmt = "kebab-case" -> ReplaceIn(id, "_", "-")
    [] fmt = "SCREAMING-KEBAB-CASE" -> ReplaceIn(Upper(id), "_", "-")

\* Jackson's PropertyNamingStrategies
RECURSIVE JSnake(_, _, _, _)
JSnake(s, i, acc, prev) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i)
       IN IF i = 1 /\ c = "_" THEN JSnake(s, i + 1, acc, prev)
          ELSE IF c \in Uppers
               THEN JSnake(s, i + 1,
                      (IF ~prev /\ acc # "" /\ Ch(acc, Len(acc)) # "_" THEN acc \o "_" ELSE acc) \o Low(c), TRUE)
               ELSE JSnake(s, i + 1, acc \o c, FALSE)
RECURSIVE JKebab(_, _, _, _)
JKebab(s, i, acc, uppers) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i)
       IN IF c \notin Uppers
          THEN JKebab(s, i + 1,
                 (IF uppers > 1 THEN SubSeq(acc, 1, Len(acc) - 1) \o "-" \o Ch(acc, Len(acc)) ELSE acc) \o c, 0)
          ELSE JKebab(s, i + 1, (IF uppers = 0 /\ i > 1 THEN acc \o "-" ELSE acc) \o Low(c), uppers + 1)
JacksonRename(strategy, id) ==
  CASE strategy = "" -> id
    [] strategy = "LowerCaseStrategy" -> Lower(id)
    [] strategy = "UpperCamelCaseStrategy" -> UpperFirst(id)
    [] strategy = "SnakeCaseStrategy" -> JSnake(id, 1, "", FALSE)
    [] strategy = "KebabCaseStrategy" -> JKebab(id, 1, "", 0)
    [] strategy = "LowerCamelCaseStrategy" -> id
    [] OTHER -> "?" \o strategy

\* the naming strategy that a property_name_format asks for
JacksonStrategyOf(fmt) ==
  CASE fmt = "lowercase" -> "LowerCaseStrategy" [] fmt = "PascalCase" -> "UpperCamelCaseStrategy"
    [] fmt = "snake_case" -> "SnakeCaseStrategy" [] fmt = "kebab-case" -> "KebabCaseStrategy" [] OTHER -> ""

----------------------------------------------------------------------------
(* The algorithm: words of the key in the case of the language, then made  *)
(* legal, then made distinct                                               *)
RECURSIVE SkipSep(_, _)
SkipSep(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in Alnum THEN i ELSE SkipSep(s, i + 1)
\* last: the character before (in the key), which decides about word boundaries
Boundary(last, c) == (IsAscii(last) /\ last \notin Alnum) \/ (last \in Lowers /\ c \in Uppers)
RECURSIVE Sep(_, _, _, _)
Sep(s, i, last, sep) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
       IN IF c \notin Alnum THEN Sep(s, i + 1, c, sep)
          ELSE (IF Boundary(last, c) THEN sep ELSE "") \o Low(c) \o Sep(s, i + 1, c, sep)
SepCase(s, sep) == Sep(s, SkipSep(s, 1), "A", sep)
RECURSIVE Camel(_, _, _)
Camel(s, i, last) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
       IN IF c \notin Alnum THEN Camel(s, i + 1, c)
          ELSE (IF Boundary(last, c) THEN Up(c) ELSE IF last \in Alpha THEN Low(c) ELSE c) \o Camel(s, i + 1, c)
CamelCase(s) == Camel(s, SkipSep(s, 1), " ")

Avoid(lang) == CASE lang = "rust" -> RustKeywords
                 [] lang \in {"jackson", "kotlinx"} -> KotlinKeywords
                 [] lang = "py" -> PythonKeywords \union BaseModelAttributes
CaseFn(lang, key) == IF lang \in {"jackson", "kotlinx"} THEN LowerFirst(CamelCase(key)) ELSE SepCase(key, "_")
Legalise(lang, key) ==
  LET a == CaseFn(lang, key)
      b == IF a \in Avoid(lang) THEN a \o "_field" ELSE a
      c == IF b = "" THEN "field" ELSE b
  IN IF Ch(c, 1) \in Digits THEN "n" \o c ELSE c
RECURSIVE FirstFree(_, _, _)
FirstFree(base, used, n) == IF base \o ToString(n) \notin used THEN base \o ToString(n) ELSE FirstFree(base, used, n + 1)
ChooseField(lang, key, used) ==
  LET base == Legalise(lang, key) IN IF base \notin used THEN base ELSE FirstFree(base, used, 2)
=============================================================================
