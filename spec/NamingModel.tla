----------------------------- MODULE NamingModel -----------------------------
(***************************************************************************)
(* The members of one object get their identifiers one after the other.    *)
(* TLC visits every sequence of at most MaxKeys different keys from a pool  *)
(* that is built to collide (case, separators, digits, keywords, names that *)
(* look like made-up ones) in every language and format.                    *)
(***************************************************************************)
EXTENDS Naming, Integers, Json

CONSTANTS MaxKeys, Emit, PoolName
Langs == {"rust", "jackson", "kotlinx", "py"}
Formats == {"none", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case",
            "SCREAMING-KEBAB-CASE"}
\* all strings of up to three characters over an alphabet, or a list of known trouble
Letters == {"a", "B", "_", "1", "-"}
Shorts == {""} \union Letters \union {x \o y : x \in Letters, y \in Letters}
Triples == {x \o y \o z : x \in Letters, y \in Letters, z \in Letters}
Trouble == {"a2", "a_2", "A2", "a 2", "field", "field2", "_field", "type", "type_field", "typeField", "Type", "n1", "n_1", "1a", "+1",
            "object", "objectField", "object_field", "class", "def", "def_field", "copy", "copyField", "copy_field", "self", "Self",
            "aB", "a_b", "a-b", "AB", "ABc", "aBC", "a-b-c", "a_b_c", "abc", "A-B", "é", "éa", "aéB", "aé", "$", "$a", " a", "a "}
\* control characters, non-ASCII and the like are left to the traces of the real code
Pool == CASE PoolName = "short" -> Shorts [] PoolName = "triples" -> Shorts \union Triples [] OTHER -> Trouble

VARIABLES lang, fmt, keys, ids
vars == <<lang, fmt, keys, ids>>
Init == lang \in Langs /\ fmt \in Formats /\ keys = <<>> /\ ids = <<>>
        /\ (lang \in {"kotlinx", "py"} => fmt = "none")
        /\ (lang = "jackson" => fmt = "none" \/ JacksonStrategyOf(fmt) # "")
Used == {ids[i] : i \in DOMAIN ids}
Next == \E k \in Pool :
          /\ Len(keys) < MaxKeys
          /\ \A i \in DOMAIN keys : keys[i] # k
          /\ keys' = Append(keys, k)
          /\ ids' = Append(ids, ChooseField(lang, k, Used))
          /\ UNCHANGED <<lang, fmt>>

(* the annotation is left out where the library makes the key out of the identifier anyway *)
Implicit(id) == CASE lang = "rust" -> SerdeRename(fmt, id)
                  [] lang = "jackson" -> JacksonRename(JacksonStrategyOf(fmt), id)
                  [] OTHER -> id
\* the generator's own idea of what the library does with the identifier
Predicted(id) == IF lang # "jackson" THEN Implicit(id)
                 ELSE CASE fmt = "lowercase" -> Lower(id) [] fmt = "PascalCase" -> UpperFirst(CamelCase(id))
                        [] fmt = "snake_case" -> SepCase(id, "_") [] fmt = "kebab-case" -> SepCase(id, "-") [] OTHER -> id
Bound(i) == IF Predicted(ids[i]) # keys[i] THEN keys[i] ELSE Implicit(ids[i])

Legal == \A i \in DOMAIN ids : LegalField(lang, ids[i])
Distinct == \A i, j \in DOMAIN ids : ids[i] = ids[j] => i = j
BoundToKey == \A i \in DOMAIN ids : Bound(i) = keys[i]
Vectors == (Emit /\ Len(keys) = MaxKeys /\ lang = "rust" /\ fmt = "none") => PrintT("KEYS " \o ToJson(keys))
=============================================================================
