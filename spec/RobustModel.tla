----------------------------- MODULE RobustModel -----------------------------
(* A reader with a stack of at most Limit entries, on all pumped texts of a  *)
(* bounded family: it ends, it never needs more, it answers with an error    *)
(* exactly if the text is nested deeper or not balanced. And the skeletons   *)
(* of the texts that the code is given, for all kinds of input.              *)
EXTENDS Robust, TLC, Json, SequencesExt
CONSTANTS Limit, MaxFrames, Emit
VARIABLES text, depth, stack, left, answer
vars == <<text, depth, stack, left, answer>>

SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Shapes0 == SeqUpTo(DOMAIN Frames, MaxFrames)
Garbage == SeqUpTo({"[", "{", "]", "}", "1", ","}, 2)
Texts == {Nested(fs, l, n) : fs \in Shapes0, l \in DOMAIN Leaves, n \in 0..Limit + 1}
         \cup {[u |-> u, v |-> v, w |-> w, x |-> <<>>, y |-> <<>>, n |-> n] : u \in {<<>>, <<"[">>, <<"{", "k", ":">>}, v \in Garbage, w \in {<<>>, <<"]">>, <<"1", "}">>}, n \in 0..Limit + 1}
Init == text \in Texts /\ depth = Depth(text) /\ stack = <<>> /\ left = Expand(text) /\ answer = "none"
Read ==
  /\ answer = "none" /\ left # <<>>
  /\ LET t == Head(left) IN
       IF t \in Opens THEN IF Len(stack) = Limit THEN answer' = "error" /\ UNCHANGED stack ELSE stack' = Append(stack, t) /\ UNCHANGED answer
       ELSE IF t \in Closes THEN IF stack = <<>> \/ Last(stack) # (IF t = "]" THEN "[" ELSE "{") THEN answer' = "error" /\ UNCHANGED stack ELSE stack' = Front(stack) /\ UNCHANGED answer
       ELSE UNCHANGED <<stack, answer>>
  /\ left' = Tail(left) /\ UNCHANGED <<text, depth>>
End == answer = "none" /\ left = <<>> /\ answer' = (IF stack = <<>> THEN "types" ELSE "error") /\ UNCHANGED <<text, depth, stack, left>>
Next == Read \/ End

Max0(s) == Peak(s)
\* the shortcut is the depth
Closed == (answer = "none" /\ stack = <<>> /\ left = Expand(text)) => depth = Max0(left)
Bounded == Len(stack) <= Limit
\* a run ends: there is a step until there is an answer
Ends == answer = "none" => ENABLED Next
TooDeep == answer = "types" => depth <= Limit
BalancedNeeds == (text.x # <<>> /\ answer = "error") => depth > Limit
BalancedGets == (text.x # <<>> /\ answer = "types") => depth <= Limit

\* ---------------------------------------------------------------- skeletons for the code
BlockTokens == <<"{", "}", "(", ")", "[", "]", "\"/a\": {", "\"\": {", "unwrap: ", "use_type: ", "\"map\"", "\"x\"", ",", ":", "-", "1", "true", "r#\"", "#", "'", "/*", "*/", "//", "\n", "x", "::", "b\"", "\\", "infer_map_threshold: ", "99", "<", "!">>
BlockFrames == <<"", "{ ", "{ unwrap: \"", "{ derives: \"a", "{ \"/a\": {", "{ \"/", "{ x: ", "{ infer_map_threshold: ">>
SqlTokens == <<"(", ")", "[", "]", "{", "<", ">", ",", ".", "::int ", "1", "'s'", "a ", "+", "- ", "not ", "is null ", "between 1 and ", "in (", "exists (", "select ", "from ", "union select 1 ", "join b ", "where ", "case when ", "then ", "end ",
               "cast(", "interval ", "array ", "array<", "int ", "varchar(", "check ", "default ", "primary key ", "references b ", "create table c (a int) ", ";", "explain ", "with a as ", "values ", "at time zone ", "--\n", "/*", "*/", "||", "->", ":", "$1", "?", "like ", "over (", "order by ", "as ", "if ", "begin ", "set a = ", "null ", "any(", "struct<", "position(", "substring(", "trim(", "extract(", "lateral ", "unnest(">>
SqlFrames == <<"", "create table t (a int check (", "create table t (a ", "create table t (", "create table t ", "select ", "select * from ", "insert into t values ", "alter table t add ">>
NameChars == <<"a", "A", "_", "-", " ", ".", "1", "s", "es", "ies", "ss", "x1", "$", "\"", "'", "\\", "\n", "#", "é", "ß", "İ", "ǆ", "Ω", "日", "😀", "̈", "‍", " ", "{", "}", "(", "<", "::", "pub ", "crate", "r#", "self", "%", "/", "//", "*/", "`", "${", "~1", "ŉ", "ﬁ">>
JsonTokens == <<"[", "]", "{", "}", ",", ":", "1", "-", "0", ".", "e", "\"", "\"k\":", "null", "t", " ", "\\", "\\u", "d800", "/", "é", "//", "1e999", "\"k\":{", "[{">>
JsonFrames == <<"", "[", "{", "[\"", "{\"k\":", "[1,", "[{},">>
MacroFrames == <<"", "\"", "r#\"", "\"A\", ", "\"A\", \"{}\", ", "json_typegen!(", "\"pub(", "\"A\", \"/">>
\* one or two tokens in a frame
Pumps(kind, frames, tokens) ==
  \A i \in DOMAIN frames : \A j \in DOMAIN tokens : \A k \in 0..Len(tokens) :
    PrintT("PUMP " \o ToJson([kind |-> kind, u |-> frames[i], v |-> IF k = 0 THEN <<tokens[j]>> ELSE <<tokens[j], tokens[k]>>]))
Emits == Emit => /\ Pumps("block", BlockFrames, BlockTokens) /\ Pumps("sql", SqlFrames, SqlTokens) /\ Pumps("name", <<"", "A">>, NameChars)
                 /\ Pumps("json", JsonFrames, JsonTokens) /\ Pumps("macro", MacroFrames, BlockTokens)
                 /\ \A fs \in SeqUpTo(DOMAIN Frames, 2) : \A l \in DOMAIN Leaves : PrintT("NEST " \o ToJson([v |-> Around(fs, "o"), w |-> Leaves[l], x |-> Around(fs, "c")]))
ASSUME Emits
=============================================================================
