----------------------------- MODULE WebModel -----------------------------
(* The page and the worker as they are designed: requests one at a time,   *)
(* the latest waiting one kept; files read by the page (small) or the      *)
(* worker (large), outdated reads ignored; generation waits for the        *)
(* module. Messages arrive in order, reads end in any order, well or not.  *)
EXTENDS WebSession, SequencesExt, Json
CONSTANTS MaxActs, MaxReloads, Emit, Rich
None == "none"
\* contents; a text that generation fails on
Boom == "boom"
Small == IF Rich THEN {[id |-> "s1", v |-> "t1", ok |-> TRUE], [id |-> "s0", v |-> "", ok |-> TRUE], [id |-> "sx", v |-> "", ok |-> FALSE]}
         ELSE {[id |-> "s1", v |-> "t1", ok |-> TRUE], [id |-> "sx", v |-> "", ok |-> FALSE]}
Large == IF Rich THEN {[id |-> "l1", v |-> "f1", ok |-> TRUE], [id |-> "lb", v |-> Boom, ok |-> TRUE], [id |-> "lx", v |-> "", ok |-> FALSE]}
         ELSE {[id |-> "l1", v |-> "f1", ok |-> TRUE], [id |-> "lx", v |-> "", ok |-> FALSE]}
\* a text too long to keep
Big == "big"
Texts == IF MaxReloads > 0 THEN {"t1", "", Big} ELSE IF Rich THEN {"t1", "", Boom} ELSE {"t1", ""}

VARIABLES p, w, toW, toP, wasm, acts, sched
vars == <<p, w, toW, toP, wasm, acts, sched>>
(* p: input, set, ready, queued, overlay, spin, req, reads, out            *)
(* w: file, err, req, reads, waiting                                       *)
NoMsg == [t |-> None]
GenMsg(q) == [t |-> "gen", v |-> IF q.input = "" THEN "{}" ELSE q.input, s |-> q.set]
\* page state with the messages it posts
Pg(q, msgs) == [q |-> q, m |-> msgs]
Request1(x, msg) == IF x.q.ready THEN Pg([x.q EXCEPT !.ready = FALSE], Append(x.m, msg)) ELSE Pg([x.q EXCEPT !.queued = msg], x.m)
Render(x) == Request1(Pg([x.q EXCEPT !.store = [v |-> IF x.q.input = Big THEN "" ELSE x.q.input, set |-> x.q.set]], x.m), GenMsg(x.q))
\* an assignment that changes what is bound renders again, once the handler is done; a new text cancels reads of the page
Input(q, v) == IF q.input = v THEN q ELSE [q EXCEPT !.dirty = TRUE, !.typed = TRUE, !.input = v]
Set(q, s) == [q EXCEPT !.dirty = @ \/ q.set # s, !.set = s]
Settle(x) == IF x.q.dirty THEN Render(Pg([x.q EXCEPT !.dirty = FALSE, !.typed = FALSE, !.req = @ + IF x.q.typed THEN 1 ELSE 0], x.m)) ELSE x
ClearFile(x) == Render(Pg([Input(x.q, "") EXCEPT !.req = @ + 1, !.overlay = FALSE, !.spin = FALSE], Append(x.m, [t |-> "clear"])))
LoadInWorker(x, f) == Pg([Input(x.q, "") EXCEPT !.overlay = TRUE, !.spin = TRUE, !.ready = FALSE], Append(x.m, [t |-> "load", f |-> f]))

Do(act, tag) == acts' = Append(acts, act) /\ sched' = Append(sched, tag)
Apply(x) == p' = Settle(x).q /\ toW' = toW \o Settle(x).m
UserType(t) == ~p.overlay /\ p.input # t /\ Do([a |-> "type", v |-> t, long |-> t = Big], <<"type", t>>) /\ Apply(Pg(Input(p, t), <<>>))
UserExample == Do([a |-> "example", v |-> "ex", long |-> FALSE, s |-> [name |-> "Example"]], <<"example">>)
               /\ Apply(LET x == ClearFile(Pg(p, <<>>)) IN Pg(Set(Input(x.q, "ex"), [x.q.set EXCEPT !.name = "Example"]), x.m))
UserSmall(f) == Do([a |-> "pick", v |-> f.v, ok |-> f.ok, small |-> TRUE], <<"pick", f.id>>)
                /\ Apply(Pg([p EXCEPT !.req = @ + 1, !.reads = Append(@, [f |-> f, req |-> p.req + 1])], <<>>))
UserLarge(f) == Do([a |-> "pick", v |-> f.v, ok |-> f.ok, small |-> FALSE], <<"pick", f.id>>)
                /\ Apply(LoadInWorker(Pg([p EXCEPT !.req = @ + 1], <<>>), f))
UserClear == p.overlay /\ Do([a |-> "clear"], <<"clear">>) /\ Apply(ClearFile(Pg(p, <<>>)))
UserSet(n) == p.set.mode # n /\ Do([a |-> "set", s |-> [mode |-> n]], <<"set", n>>) /\ Apply(Pg(Set(p, [p.set EXCEPT !.mode = n]), <<>>))
\* only where a page may be left: names matter then
UserNoName == MaxReloads > 0 /\ p.set.name # "" /\ Do([a |-> "set", s |-> [name |-> ""]], <<"set", "name", "">>) /\ Apply(Pg(Set(p, [p.set EXCEPT !.name = ""]), <<>>))
User ==
  /\ Len(acts) < MaxActs
  /\ \/ \E t \in Texts : UserType(t)
     \/ UserExample
     \/ \E f \in Small : UserSmall(f)
     \/ \E f \in Large : UserLarge(f)
     \/ UserClear
     \/ \E n \in {"m1", "m2"} : UserSet(n)
     \/ UserNoName
  /\ UNCHANGED <<w, toP, wasm>>

Env(tag) == sched' = Append(sched, tag) /\ UNCHANGED acts
PageRead(i) ==
  LET r == p.reads[i]
      x == Pg([p EXCEPT !.reads = RemoveAt(@, i)], <<>>)
  IN /\ Env(<<"pr", ToString(i)>>)
     /\ Apply(IF r.req # p.req THEN x
              ELSE IF r.f.ok THEN LET y == ClearFile(x) IN Pg(Input(y.q, r.f.v), y.m)
              ELSE LoadInWorker(x, r.f))
     /\ UNCHANGED <<w, toP, wasm>>
PageMessage ==
  /\ toP # <<>> /\ toP' = Tail(toP) /\ Env(<<"p">>)
  /\ LET m == Head(toP)
         x == CASE m.t = "done" -> Pg([p EXCEPT !.out = m.out], <<>>)
                [] m.t = "loaded" -> Render(Pg([p EXCEPT !.spin = FALSE], <<>>))
                [] OTHER -> Pg(p, <<>>)
         y == Pg([x.q EXCEPT !.ready = TRUE], x.m)
         z == IF y.q.queued = NoMsg THEN y ELSE LET r == Request1(y, y.q.queued) IN Pg([r.q EXCEPT !.queued = NoMsg], r.m)
     IN Apply(z)
  /\ UNCHANGED <<w, wasm>>

\* worker
Generate(m) ==
  LET text == IF w.file = None THEN m.v ELSE w.file
  IN [t |-> "done", out |-> IF w.err \/ wasm' # "ok" \/ text = Boom THEN [a |-> "error"] ELSE [a |-> "types", r |-> [v |-> text, s |-> m.s]]]
WorkerMessage ==
  /\ toW # <<>> /\ toW' = Tail(toW) /\ Env(<<"w">>)
  /\ LET m == Head(toW) IN
       CASE m.t = "gen" ->
              IF wasm = "init" THEN w' = [w EXCEPT !.waiting = Append(@, m)] /\ UNCHANGED <<toP, wasm>>
              ELSE UNCHANGED <<w, wasm>> /\ toP' = Append(toP, Generate(m))
         [] m.t = "load" -> w' = [w EXCEPT !.req = @ + 1, !.file = None, !.err = FALSE, !.reads = Append(@, [f |-> m.f, req |-> w.req + 1])] /\ UNCHANGED <<toP, wasm>>
         [] m.t = "clear" -> w' = [w EXCEPT !.req = @ + 1, !.file = None, !.err = FALSE] /\ UNCHANGED <<toP, wasm>>
  /\ UNCHANGED p
WorkerRead(i) ==
  LET r == w.reads[i] IN
  /\ Env(<<"wr", ToString(i)>>)
  /\ w' = [w EXCEPT !.reads = RemoveAt(@, i), !.file = IF r.req = w.req /\ r.f.ok THEN r.f.v ELSE @, !.err = IF r.req = w.req /\ ~r.f.ok THEN TRUE ELSE @]
  /\ toP' = Append(toP, [t |-> "loaded"])
  /\ UNCHANGED <<p, toW, wasm>>
Init1(ok) ==
  /\ wasm = "init" /\ wasm' = (IF ok THEN "ok" ELSE "failed") /\ Env(<<"init", IF ok THEN "ok" ELSE "fail">>)
  /\ toP' = toP \o <<[t |-> "ready"]>> \o [i \in DOMAIN w.waiting |-> Generate(w.waiting[i])]
  /\ w' = [w EXCEPT !.waiting = <<>>]
  /\ UNCHANGED <<p, toW>>
Environment ==
  \/ \E i \in 1..2 : i \in DOMAIN p.reads /\ PageRead(i)
  \/ PageMessage
  \/ WorkerMessage
  \/ \E i \in 1..2 : i \in DOMAIN w.reads /\ WorkerRead(i)
  \/ \E ok \in BOOLEAN : Init1(ok)

Empty == [name |-> "Root"]
Settings == [mode |-> "m1", name |-> "Root"]
P0 == [dirty |-> FALSE, typed |-> FALSE, input |-> "", set |-> Settings, ready |-> FALSE, queued |-> NoMsg, overlay |-> FALSE, spin |-> FALSE, req |-> 0, reads |-> <<>>, out |-> [a |-> "none"], store |-> [v |-> "", set |-> Settings]]
W0 == [file |-> None, err |-> FALSE, req |-> 0, reads |-> <<>>, waiting |-> <<>>]
\* the page is left and opened again: whatever was under way is gone. Not while a small file is being read.
Leave == p.reads = <<>> /\ Cardinality({i \in DOMAIN acts : acts[i].a \in {"reload", "forget"}}) < MaxReloads /\ acts # <<>>
Open(left) ==
  /\ LET x == Render(Pg([P0 EXCEPT !.input = left.v, !.set = [left.set EXCEPT !.name = IF @ = "" THEN Empty.name ELSE @]], <<>>))
     IN p' = x.q /\ toW' = x.m
  /\ w' = W0 /\ toP' = <<>> /\ wasm' = "init"
Reload == Leave /\ Do([a |-> "reload", empty |-> Empty], <<"reload">>) /\ Open(p.store)
Forget == Leave /\ Do([a |-> "forget", fresh |-> Settings], <<"forget">>) /\ Open(P0.store)
Init ==
  /\ p = Render(Pg(P0, <<>>)).q /\ toW = Render(Pg(P0, <<>>)).m
  /\ w = W0
  /\ toP = <<>> /\ wasm = "init" /\ acts = <<>> /\ sched = <<>>
Next == User \/ Environment \/ Reload \/ Forget

Quiet == p.reads = <<>> /\ w.reads = <<>> /\ toW = <<>> /\ toP = <<>> /\ wasm # "init"
Choice == Chosen(First(Settings), acts)
Works == wasm = "ok" /\ Request(Choice).v # Boom
\* once everything has settled the page shows what was last chosen, does not wait, and takes requests
Right == Quiet => Shows(Choice, Works, p.out) /\ ~p.spin /\ p.ready /\ p.queued = NoMsg
\* what is stored is what the page shows, at all times
Stored == p.store = [v |-> IF p.input = Big THEN "" ELSE p.input, set |-> p.set]
\* and what was last chosen, unless a small file is still being read
KeptAsChosen == p.reads = <<>> => p.store = [v |-> Kept(Choice), set |-> Choice.s]
\* nothing is left waiting without something under way
Waits == (~p.ready \/ p.queued # NoMsg) => ~Quiet
\* the overlay hides the text exactly while a file of the worker is the choice, or replaces what was shown until a small file is read
View == <<p, w, toW, toP, wasm, acts>>
Vectors == (Emit /\ Quiet /\ Len(acts) >= MaxActs) => PrintT("WEB " \o ToJson(sched))
=============================================================================
