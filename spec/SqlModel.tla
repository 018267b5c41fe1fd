----------------------------- MODULE SqlModel -----------------------------
(* The machine reads the tokens of every list of statements of a bounded   *)
(* family, and every text with one token deleted, doubled, exchanged or    *)
(* put in. Unspoiled texts mean what the statements say.                   *)
EXTENDS Sql, Json
CONSTANTS Deep, Emit
ConKinds == {[k |-> "not null"], [k |-> "null"], [k |-> "primary key"], [k |-> "unique"], [k |-> "default", v |-> "NULL"], [k |-> "default", v |-> "'NOT NULL'"],
         [k |-> "check", v |-> "a IS NOT NULL"], [k |-> "references"], [k |-> "on delete"], [k |-> "comment", v |-> "'NOT NULL'"], [k |-> "auto_increment"],
         [k |-> "on update"], [k |-> "identity"], [k |-> "named", v |-> "c", c |-> [k |-> "not null"]], [k |-> "named", v |-> "c", c |-> [k |-> "unique"]]}
\* ON UPDATE right after REFERENCES is a part of the reference
Possible(c) == \A i \in 1..(Len(c) - 1) : ~(c[i].k \in {"references", "on delete"} /\ c[i + 1].k = "on update")
ConSeqs(n) == {c \in UNION {[1..k -> ConKinds] : k \in 0..n} : Possible(c)}
Few == {[k |-> "not null"], [k |-> "default", v |-> "NULL"], [k |-> "check", v |-> "a IS NOT NULL"]}
FewSeqs == {<<>>} \cup {<<c>> : c \in Few} \cup {<<c, [k |-> "not null"]>> : c \in Few}
TableCons(n) == {[k |-> "primary key", name |-> n], [k |-> "unique", name |-> n], [k |-> "check", name |-> "a IS NOT NULL"], [k |-> "named unique", name |-> n], [k |-> "foreign key", name |-> n]}
Create(name, items) == [k |-> "create", name |-> name, items |-> items]
Other == [k |-> "other"]
One == {Create("t", <<Column("a", "VARCHAR", c)>>) : c \in ConSeqs(IF Deep THEN 3 ELSE 2)}
Items == {Column("a", "INT", c) : c \in FewSeqs} \cup TableCons("a")
Items2 == {Column("b", "TEXT", c) : c \in FewSeqs} \cup TableCons("b")
Two == {Create("t", <<x, y>>) : x \in Items, y \in Items2} \cup (IF Deep THEN {Create("t", <<x, y, z>>) : x \in Items, y \in Items2, z \in {Column("c", "BOOLEAN", c) : c \in FewSeqs}} ELSE {})
Small == {Other, Create("t", <<Column("a", "INT", <<>>)>>), Create("u", <<Column("b", "DATE", <<[k |-> "not null"]>>)>>)}
Lists == {<<s>> : s \in One \cup Two} \cup UNION {[1..k -> Small] : k \in 0..3}

Spoil(toks) ==
  {[at |-> 0, how |-> "none", toks |-> toks]}
  \cup {[at |-> i, how |-> "delete", toks |-> SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))] : i \in DOMAIN toks}
  \cup {[at |-> i, how |-> "double", toks |-> SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks))] : i \in DOMAIN toks}
  \cup {[at |-> i, how |-> "cut", toks |-> SubSeq(toks, 1, i - 1)] : i \in DOMAIN toks}
  \cup {[at |-> i, how |-> "swap", toks |-> SubSeq(toks, 1, i - 1) \o <<toks[i + 1], toks[i]>> \o SubSeq(toks, i + 2, Len(toks))] : i \in 1..(Len(toks) - 1)}
  \cup {[at |-> i, how |-> "put", toks |-> SubSeq(toks, 1, i) \o <<x>> \o SubSeq(toks, i + 1, Len(toks))] : i \in 0..Len(toks), x \in {T("("), T(")"), T(","), T(";"), T("junk"), T("other")}}

VARIABLES stmts, how, toks, at, m
vars == <<stmts, how, toks, at, m>>
Init ==
  /\ stmts \in Lists
  /\ \E s \in Spoil(Toks(stmts)) : how = s.how /\ toks = s.toks
  /\ at = 0 /\ m = M0
Next ==
  /\ at < Len(toks) /\ m.pc \notin {"error", "open"}
  /\ m' = Step(m, toks[at + 1]) /\ at' = at + 1 /\ UNCHANGED <<stmts, how, toks>>
Done == at = Len(toks) \/ m.pc \in {"error", "open"}
Same == (Done /\ how = "none") => [a |-> AtEnd(m), members |-> IF AtEnd(m) = "ok" THEN m.members ELSE <<>>] = Meaning(stmts)
\* the members of the first table do not change with what follows
Prefix == m.found => RunM(M0, toks) = [RunM(M0, toks) EXCEPT !.members = m.members]
\* a text that lost a parenthesis, or was cut inside of the table, is not SQL
Broken == Done /\ AtEnd(m) = "ok" =>
  Cardinality({i \in DOMAIN toks : toks[i].t = "("}) = Cardinality({i \in DOMAIN toks : toks[i].t = ")"})
Vectors == (Emit /\ at = 0) => PrintT("SQL " \o ToJson([how |-> how, toks |-> toks, a |-> Reading(toks).a]))
=============================================================================
