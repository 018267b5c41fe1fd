----------------------------- MODULE TraceSql -----------------------------
(* SQL texts as tokens, and what the code answered.                        *)
EXTENDS TraceBase, Sql
Tags(e) == Mis(e.toks, e.obs)
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
