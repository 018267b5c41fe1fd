------------------------------- MODULE Sql --------------------------------
(* SQL input. A text is a sequence of tokens [t |-> kind, v |-> text]:     *)
(*   the words of the kinds below, "name", "type" (v: the type), "val" (an *)
(*   expression), "str", "(", ")", ",", ";",                               *)
(*   "other": a complete statement that creates no table,                  *)
(*   "suffix": table options after the columns, "junk": no SQL at all.     *)
(* Two readings: the members of a list of statements (declarative), and a  *)
(* machine that reads tokens. Where dialects differ the machine says       *)
(* "open".                                                                 *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

\* --- types of columns and what a member may be ---
Texts == {"CHARACTER", "CHAR", "CHARACTER VARYING", "CHAR VARYING", "VARCHAR", "NVARCHAR", "TEXT", "STRING"}
Integers == {"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"}
Dates == {"DATE", "DATETIME", "TIMESTAMP"}
\* the kinds of member that correspond; types without a counterpart may be left open
Kinds(type) ==
  CASE type \in Texts -> {"string"}
    [] type \in Integers -> {"integer"}
    [] type = "BOOLEAN" -> {"bool"}
    [] type \in Dates -> {"Date"}
    [] type \in {"BOOL"} -> {"any", "bool"}
    [] type \in {"SERIAL", "BIGSERIAL", "INT2", "INT4", "INT8"} -> {"any", "integer"}
    [] type \in {"FLOAT", "REAL", "DOUBLE", "DOUBLE PRECISION", "NUMERIC", "DECIMAL", "DEC"} -> {"any", "floating"}
    [] type \in {"UUID", "CLOB", "ENUM", "INTERVAL", "CHARACTER LARGE OBJECT"} -> {"any", "string"}
    [] type \in {"TIME", "TIMESTAMPTZ"} -> {"any", "string", "Date"}
    [] OTHER -> {"any"}

\* --- declarative: statements are [k |-> "other"] or [k |-> "create", items |-> seq of columns and table constraints] ---
Column(n, type, cons) == [k |-> "column", name |-> n, type |-> type, cons |-> cons]
SaysNotNull(c) == IF c.k = "named" THEN c.c.k = "not null" ELSE c.k = "not null"
Nullable(col) == ~ \E i \in DOMAIN col.cons : SaysNotNull(col.cons[i])
MemberOf(col) == [name |-> col.name, type |-> col.type, null |-> Nullable(col)]
RECURSIVE MembersOf(_)
MembersOf(items) == IF items = <<>> THEN <<>>
                    ELSE (IF Head(items).k = "column" THEN <<MemberOf(Head(items))>> ELSE <<>>) \o MembersOf(Tail(items))
Creates(stmts) == {i \in DOMAIN stmts : stmts[i].k = "create"}
Meaning(stmts) == IF Creates(stmts) = {} THEN [a |-> "error", members |-> <<>>]
                  ELSE [a |-> "ok", members |-> MembersOf(stmts[(CHOOSE i \in Creates(stmts) : \A j \in Creates(stmts) : i <= j)].items)]

\* --- tokens of statements ---
T(k) == [t |-> k, v |-> ""]
V(k, v) == [t |-> k, v |-> v]
RECURSIVE ConToks(_)
ConToks(c) ==
  CASE c.k = "not null" -> <<T("NOT"), T("NULL")>>
    [] c.k = "null" -> <<T("NULL")>>
    [] c.k = "primary key" -> <<T("PRIMARY"), T("KEY")>>
    [] c.k = "unique" -> <<T("UNIQUE")>>
    [] c.k = "default" -> <<T("DEFAULT"), V("val", c.v)>>
    [] c.k = "check" -> <<T("CHECK"), T("("), V("val", c.v), T(")")>>
    [] c.k = "references" -> <<T("REFERENCES"), V("name", "u"), T("("), V("name", "id"), T(")")>>
    [] c.k = "on delete" -> <<T("REFERENCES"), V("name", "u"), T("("), V("name", "id"), T(")"), T("ON"), T("DELETE"), T("SET"), T("NULL")>>
    [] c.k = "comment" -> <<T("COMMENT"), V("str", c.v)>>
    [] c.k = "auto_increment" -> <<T("AUTO_INCREMENT")>>
    [] c.k = "on update" -> <<T("ON"), T("UPDATE"), V("val", "CURRENT_TIMESTAMP")>>
    [] c.k = "identity" -> <<T("GENERATED"), T("ALWAYS"), T("AS"), T("IDENTITY")>>
    [] c.k = "named" -> <<T("CONSTRAINT"), V("name", c.v)>> \o ConToks(c.c)
ItemToks(i) ==
  CASE i.k = "column" -> <<V("name", i.name), V("type", i.type)>> \o FlattenSeq([j \in DOMAIN i.cons |-> ConToks(i.cons[j])])
    [] i.k = "primary key" -> <<T("PRIMARY"), T("KEY"), T("("), V("name", i.name), T(")")>>
    [] i.k = "unique" -> <<T("UNIQUE"), T("("), V("name", i.name), T(")")>>
    [] i.k = "check" -> <<T("CHECK"), T("("), V("val", i.name), T(")")>>
    [] i.k = "named unique" -> <<T("CONSTRAINT"), V("name", "c"), T("UNIQUE"), T("("), V("name", i.name), T(")")>>
    [] i.k = "foreign key" -> <<T("FOREIGN"), T("KEY"), T("("), V("name", i.name), T(")"), T("REFERENCES"), V("name", "u"), T("("), V("name", "id"), T(")")>>
RECURSIVE ItemsToks(_)
ItemsToks(items) == IF Len(items) = 1 THEN ItemToks(items[1]) ELSE ItemToks(Head(items)) \o <<T(",")>> \o ItemsToks(Tail(items))
StmtToks(s) == IF s.k = "other" THEN <<T("other")>>
               ELSE <<T("CREATE"), T("TABLE"), V("name", s.name), T("(")>> \o ItemsToks(s.items) \o <<T(")")>>
RECURSIVE Toks(_)
Toks(stmts) == IF stmts = <<>> THEN <<>> ELSE IF Len(stmts) = 1 THEN StmtToks(stmts[1]) ELSE StmtToks(Head(stmts)) \o <<T(";")>> \o Toks(Tail(stmts))

\* --- the machine ---
(* pc: where it is. found: the members of the first table, once complete.  *)
(* cur: columns of the table at hand. todo: tokens that have to follow.    *)
M0 == [pc |-> "statement", found |-> FALSE, members |-> <<>>, cur |-> <<>>, todo |-> <<>>, then |-> ""]
Err(m) == [m EXCEPT !.pc = "error"]
Open(m) == [m EXCEPT !.pc = "open"]
Go(m, pc) == [m EXCEPT !.pc = pc]
Must(m, todo, then) == [m EXCEPT !.pc = "must", !.todo = todo, !.then = then]
SetNotNull(m) == [m EXCEPT !.cur = [@ EXCEPT ![Len(@)].null = FALSE]]
TableDone(m) == IF m.found THEN Go(m, "after table") ELSE [m EXCEPT !.pc = "after table", !.found = TRUE, !.members = m.cur]
NameList == <<"(", "name", ")">>

RECURSIVE Step(_, _)
Step(m, tok) ==
  LET k == tok.t IN
  CASE m.pc \in {"error", "open"} -> m
    [] k = "junk" -> Err(m)
    [] m.pc = "statement" ->
         CASE k = ";" -> m
           [] k = "other" -> Go(m, "after other")
           [] k = "CREATE" -> Go(m, "create")
           [] k \in {"name", "str", "(", ")", ",", "type", "NULL", "NOT", "KEY", "UNIQUE", "PRIMARY", "TABLE", "REFERENCES", "FOREIGN", "CONSTRAINT"} ->
                IF k \in {"(", "TABLE"} THEN Open(m) ELSE Err(m)
           [] OTHER -> Open(m)
    [] m.pc = "after other" -> IF k = ";" THEN Go(m, "statement") ELSE Open(m)
    [] m.pc = "create" ->
         CASE k = "TABLE" -> Go(m, "table")
           [] k \in {"(", ")", ",", ";", "str"} -> Err(m)
           [] OTHER -> Open(m)
    [] m.pc = "table" ->
         CASE k = "name" -> [m EXCEPT !.pc = "columns", !.cur = <<>>]
           [] k \in {"(", ")", ",", ";"} -> Err(m)
           [] OTHER -> Open(m)
    [] m.pc = "columns" -> CASE k = "(" -> Go(m, "first") [] k \in {")", ","} -> Err(m) [] OTHER -> Open(m)
    [] m.pc \in {"first", "item"} ->
         CASE k = "name" -> Go([m EXCEPT !.cur = Append(@, [name |-> tok.v, type |-> "", null |-> TRUE])], "type")
           [] k = "PRIMARY" -> Must(m, <<"KEY">> \o NameList, "end")
           [] k = "UNIQUE" -> Must(m, NameList, "end")
           [] k = "CHECK" -> Must(m, <<"(", "val", ")">>, "end")
           [] k = "FOREIGN" -> Must(m, <<"KEY">> \o NameList \o <<"REFERENCES", "name">> \o NameList, "end")
           [] k = "CONSTRAINT" -> Go(m, "named item")
           [] k = ")" -> Open(m)
           [] k \in {",", ";", "("} -> Err(m)
           [] OTHER -> Open(m)
    [] m.pc = "named item" -> IF k = "name" THEN Go(m, "named item kind") ELSE IF k \in {"(", ")", ",", ";"} THEN Err(m) ELSE Open(m)
    [] m.pc = "named item kind" ->
         CASE k = "UNIQUE" -> Must(m, NameList, "end")
           [] k = "PRIMARY" -> Must(m, <<"KEY">> \o NameList, "end")
           [] k = "CHECK" -> Must(m, <<"(", "val", ")">>, "end")
           [] k \in {"(", ")", ",", ";"} -> Err(m)
           [] OTHER -> Open(m)
    [] m.pc = "end" -> CASE k = "," -> Go(m, "item") [] k = ")" -> TableDone(m) [] k = "(" -> Err(m) [] OTHER -> Open(m)
    [] m.pc = "type" ->
         CASE k = "type" -> Go([m EXCEPT !.cur = [@ EXCEPT ![Len(@)].type = tok.v]], "cons")
           [] k \in {"(", ";"} -> Err(m)
           [] OTHER -> Open(m)
    [] m.pc \in {"cons", "named con"} ->
         CASE k = "NOT" -> Go(m, "not")
           [] k = "NULL" -> Go(m, "cons")
           [] k = "PRIMARY" -> Must(m, <<"KEY">>, "cons")
           [] k = "UNIQUE" -> Go(m, "cons")
           [] k = "DEFAULT" -> Must(m, <<"val">>, "cons")
           [] k = "CHECK" -> Must(m, <<"(", "val", ")">>, "cons")
           [] k = "REFERENCES" -> Must(m, <<"name">> \o NameList, "actions")
           [] k = "COMMENT" -> Must(m, <<"str">>, "cons")
           [] k = "AUTO_INCREMENT" -> Go(m, "cons")
           [] k = "ON" -> Must(m, <<"UPDATE", "val">>, "cons")
           [] k = "GENERATED" -> Must(m, <<"ALWAYS", "AS", "IDENTITY">>, "cons")
           [] k = "CONSTRAINT" /\ m.pc = "cons" -> Must(m, <<"name">>, "named con")
           [] k = "," /\ m.pc = "cons" -> Go(m, "item")
           [] k = ")" /\ m.pc = "cons" -> TableDone(m)
           [] k = "(" -> Open(m)                        \* INT (1 ...
           [] k = ";" -> Err(m)
           [] k = "name" -> IF m.pc = "cons" THEN Err(m) ELSE Open(m)
           [] OTHER -> Open(m)
    [] m.pc = "actions" ->                              \* after REFERENCES u (id)
         IF k = "ON" THEN Go(m, "action") ELSE Step(Go(m, "cons"), tok)
    [] m.pc = "action" -> CASE k = "DELETE" -> Must(m, <<"SET", "NULL">>, "actions") [] k \in {"(", ")", ",", ";"} -> Err(m) [] OTHER -> Open(m)
    [] m.pc = "not" -> IF k = "NULL" THEN Go(SetNotNull(m), "cons") ELSE IF k \in {"(", ")", ",", ";", "name", "NOT"} THEN Err(m) ELSE Open(m)
    [] m.pc = "must" ->
         IF k = Head(m.todo) THEN IF Len(m.todo) = 1 THEN [m EXCEPT !.pc = m.then, !.todo = <<>>] ELSE [m EXCEPT !.todo = Tail(@)]
         ELSE IF k = ";" THEN Err(m)
         ELSE Open(m)
    [] m.pc = "after table" ->
         CASE k = ";" -> Go(m, "statement")
           [] k = "suffix" -> Go(m, "after suffix")
           [] k \in {"CREATE", ")", ",", "("} -> IF k = "CREATE" \/ k = ")" THEN Err(m) ELSE Open(m)
           [] OTHER -> Open(m)
    [] m.pc = "after suffix" -> CASE k = ";" -> Go(m, "statement") [] k = ")" -> Err(m) [] OTHER -> Open(m)
\* where a text may end
AtEnd(m) ==
  CASE m.pc \in {"error", "open"} -> m.pc
    [] m.pc \in {"statement", "after other", "after table", "after suffix"} -> IF m.found THEN "ok" ELSE "error"
    [] m.pc = "columns" -> "open"                       \* a table without a list of columns
    [] OTHER -> "error"
RECURSIVE RunM(_, _)
RunM(m, toks) == IF toks = <<>> THEN m ELSE RunM(Step(m, Head(toks)), Tail(toks))
Reading(toks) == LET m == RunM(M0, toks) IN [a |-> AtEnd(m), members |-> IF AtEnd(m) = "ok" THEN m.members ELSE <<>>]

\* --- a recorded answer: obs.a "ok" or "error", obs.members: records [name, kind, null] in any order ---
Fits(want, got) == got.name = want.name /\ got.kind \in Kinds(want.type) /\ (got.kind = "any" \/ got.null = want.null)
Mis(toks, obs) ==
  LET r == Reading(toks)
      names == {r.members[i].name : i \in DOMAIN r.members}
  IN IF obs.a \notin {"ok", "error"} THEN {obs.a}
     ELSE IF r.a = "open" THEN {}
     ELSE IF r.a # obs.a THEN {IF obs.a = "ok" THEN "accepted" ELSE "rejected"}
     ELSE IF r.a = "error" THEN {}
     ELSE (IF Len(obs.members) # Len(r.members) \/ {obs.members[i].name : i \in DOMAIN obs.members} # names THEN {"members"} ELSE {})
          \cup (IF \A i \in DOMAIN r.members : \A j \in DOMAIN obs.members :
                     obs.members[j].name = r.members[i].name => Fits(r.members[i], obs.members[j]) THEN {} ELSE {"type"})
          \cup (IF obs.same THEN {} ELSE {"output"})
=============================================================================
