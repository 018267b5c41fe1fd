--------------------------- MODULE ServiceModel ---------------------------
(* Calls in progress at the same time. A call is started, is handed its    *)
(* sample in portions, and ends. All that it knows is its own request and  *)
(* the portions it was handed: the answer is that of its key, whatever     *)
(* came before and whatever goes on beside it. All histories: one after    *)
(* the other, interleaved, and everything between.                         *)
EXTENDS Service, FiniteSets, SequencesExt, Json
CONSTANTS N, Portions, Emit
Calls == 1..N

\* requests that share as much as possible without being the same
Pool == {
  [i |-> "lib", name |-> "A", o |-> <<>>, m |-> "", s |-> <<1, 2, 3>>],
  [i |-> "cli", name |-> "A", o |-> <<>>, m |-> "python", s |-> <<1, 2, 3>>],
  [i |-> "macro", name |-> "A", o |-> [import_style |-> "add_imports"], m |-> "", s |-> <<1, 2, 3>>],
  [i |-> "wasm", name |-> "A", o |-> <<>>, m |-> "", s |-> <<1, 2, 4>>],
  [i |-> "macro_input", name |-> "A", o |-> <<>>, m |-> "", s |-> <<1, 2, 3>>]}
Answer(key) == key                          \* any function of the key
Portion(s, k) == <<s[k]>>

VARIABLES req, own, at, answer, history
vars == <<req, own, at, answer, history>>
Init ==
  /\ req \in [Calls -> Pool]
  /\ own = [c \in Calls |-> [key |-> <<>>, read |-> <<>>]]
  /\ at = [c \in Calls |-> 0]
  /\ answer = [c \in Calls |-> <<>>]
  /\ history = <<>>
Start(c) ==
  /\ at[c] = 0
  /\ own' = [own EXCEPT ![c] = [key |-> [name |-> Key(req[c]).name, opts |-> Key(req[c]).opts], read |-> <<>>]]
  /\ at' = [at EXCEPT ![c] = 1] /\ UNCHANGED answer
Read(c) ==
  /\ at[c] \in 1..Portions
  /\ own' = [own EXCEPT ![c].read = @ \o Portion(req[c].s, at[c])]
  /\ at' = [at EXCEPT ![c] = @ + 1] /\ UNCHANGED answer
Finish(c) ==
  /\ at[c] = Portions + 1
  /\ answer' = [answer EXCEPT ![c] = Answer([name |-> own[c].key.name, opts |-> own[c].key.opts, sample |-> own[c].read])]
  /\ at' = [at EXCEPT ![c] = @ + 1] /\ UNCHANGED own
Next == \E c \in Calls : (Start(c) \/ Read(c) \/ Finish(c)) /\ history' = Append(history, c) /\ UNCHANGED req

Done(c) == at[c] = Portions + 2
\* the answer of a call is that of the same call on its own
OwnAnswer == \A c \in Calls : Done(c) => answer[c] = Answer([Key(req[c]) EXCEPT !.sample = SubSeq(@, 1, Portions)])
\* equal keys, equal answers
SameKeySameAnswer == \A c, d \in Calls : Done(c) /\ Done(d) /\ Key(req[c]) = Key(req[d]) => answer[c] = answer[d]
\* through every interface
Interfaces == LET k(c) == Key(c) IN \A c, d \in Pool : (c.i = "lib" /\ d.i = "macro") => k(c) = k(d)
Vectors == Emit /\ (\A c \in Calls : Done(c)) /\ (\A c \in Calls : req[c] = CHOOSE r \in Pool : TRUE)
           => PrintT("SCHED " \o ToJson(history))
=============================================================================
