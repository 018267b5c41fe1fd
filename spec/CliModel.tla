----------------------------- MODULE CliModel -----------------------------
(* The program step by step, over sequences of runs: arguments, input,     *)
(* options, generation, and only then the output file. It may be killed at *)
(* any step. What is written is taken in portions, and taking one may be   *)
(* interrupted, or fail. Every complete run is the one step of CliFs, and a run that   *)
(* has not generated anything has not touched a file.                      *)
EXTENDS CliFs, Json, SequencesExt
CONSTANTS Runs, Emit, Kill, Faults
Files == {"F", "G", "S"}
Sample == "sample"
\* generation as a function of mode and document; a schema is JSON and thus a sample again
IsSample(c) == c = Sample \/ (Len(c) > 7 /\ SubSeq(c, 1, 7) = "schema:")
Gen(mode, c) == IF IsSample(c) THEN [a |-> "ok", out |-> (IF mode = "schema" THEN "schema:" ELSE "types:") \o c] ELSE [a |-> "err", out |-> ""]
Inputs == {"text", "bad text", "macro", "bad macro", "bad options", "F", "G", "S"}
Targets == {"", "F", "G", "nowhere"}
Starts == [F : {Absent, "old", Sample}, G : {Absent, "old"}, S : {Sample}]
RunKinds == [in : Inputs, o : Targets, mode : {"types", "schema"}]

VARIABLES fs0, fs, now, pc, doc, res, prints, exit, before, hist
vars == <<fs0, fs, now, pc, doc, res, prints, exit, before, hist>>
None == [in |-> "", o |-> "", mode |-> ""]
Init ==
  /\ fs0 \in Starts /\ fs = fs0 /\ now = None /\ pc = "idle" /\ doc = "" /\ res = [a |-> "", out |-> ""]
  /\ prints = "" /\ exit = 0 /\ before = fs0 /\ hist = <<>>
Start ==
  /\ pc \in {"idle"} /\ Len(hist) < Runs
  /\ now' \in RunKinds /\ hist' = Append(hist, now')
  /\ pc' = "read" /\ before' = fs /\ prints' = "" /\ exit' = 0 /\ doc' = "" /\ res' = [a |-> "", out |-> ""]
  /\ UNCHANGED <<fs0, fs>>
Fail == pc' = "done" /\ exit' = 1 /\ UNCHANGED <<fs0, fs, now, doc, res, prints, before, hist>>
Read ==
  /\ pc = "read"
  /\ LET c == CASE now.in \in {"text", "macro", "bad options"} -> Sample [] now.in \in {"bad text", "bad macro"} -> "bad" [] OTHER -> fs[now.in]
     IN IF c = Absent THEN Fail
        ELSE doc' = c /\ pc' = "options" /\ UNCHANGED <<fs0, fs, now, res, prints, exit, before, hist>>
Options ==
  /\ pc = "options"
  /\ IF now.in = "bad options" THEN Fail ELSE pc' = "generate" /\ UNCHANGED <<fs0, fs, now, doc, res, prints, exit, before, hist>>
Generate ==
  /\ pc = "generate"
  /\ IF Gen(now.mode, doc).a = "err" THEN Fail
     ELSE res' = Gen(now.mode, doc) /\ pc' = (IF now.o = "" THEN "print" ELSE "open") /\ UNCHANGED <<fs0, fs, now, doc, prints, exit, before, hist>>
\* the next portion of the result: half of it, or the rest
Taken == IF now.o = "" THEN prints ELSE fs[now.o]
More == {SubSeq(res.out, 1, Len(res.out) \div 2), res.out} \ {Taken}
PutOut == pc = "print" /\ (\E t \in More : Len(t) > Len(prints) /\ prints' = t) /\ pc' = (IF prints' = res.out THEN "done" ELSE "print")
          /\ UNCHANGED <<fs0, fs, now, doc, res, exit, before, hist>>
NoSpace == Faults /\ pc \in {"print", "write"} /\ pc' = "torn" /\ exit' = 1 /\ UNCHANGED <<fs0, fs, now, doc, res, prints, before, hist>>
Open ==
  /\ pc = "open"
  /\ IF now.o = "nowhere" THEN Fail
     ELSE fs' = [fs EXCEPT ![now.o] = ""] /\ pc' = "write" /\ UNCHANGED <<fs0, now, doc, res, prints, exit, before, hist>>
Write == pc = "write" /\ (\E t \in More : Len(t) > Len(fs[now.o]) /\ fs' = [fs EXCEPT ![now.o] = t]) /\ pc' = (IF fs'[now.o] = res.out THEN "done" ELSE "write")
         /\ UNCHANGED <<fs0, now, doc, res, prints, exit, before, hist>>
Killed == Kill /\ pc \in {"read", "options", "generate"} /\ pc' = "killed" /\ exit' = 137 /\ UNCHANGED <<fs0, fs, now, doc, res, prints, before, hist>>
End == pc \in {"done", "killed", "torn"} /\ pc' = "idle" /\ UNCHANGED <<fs0, fs, now, doc, res, prints, exit, before, hist>>
Next == Start \/ Read \/ Options \/ Generate \/ PutOut \/ Open \/ Write \/ NoSpace \/ Killed \/ End

\* the run as CliFs sees it
Ref == IF now.in = "bad options" THEN [a |-> "err", out |-> ""]
       ELSE Gen(now.mode, CASE now.in \in {"text", "macro"} -> Sample [] now.in \in {"bad text", "bad macro"} -> "bad" [] OTHER -> before[now.in])
TheRun == [o |-> IF now.o = "nowhere" THEN "F" ELSE now.o, ref |-> Ref, sink |-> now.o # "nowhere", dead |-> pc = "killed", torn |-> pc = "torn"]
OneStep == pc \in {"done", "killed", "torn"} => Mis(before, TheRun, [exit |-> exit, stdout |-> prints, msg |-> exit # 0, fs |-> fs]) = {}
\* nothing is touched before there is a result, and then only the target
NothingEarly == (pc \in {"read", "options", "generate", "killed"} \/ (pc = "done" /\ exit # 0)) => fs = before
OnlyTarget == \A f \in Files : f # now.o => fs[f] = before[f]
\* a file holds what it held at first, or the whole result of one run
Whole == ~Faults /\ pc \notin {"write"} => \A f \in Files : fs[f] = fs0[f] \/ (Len(fs[f]) > 6 /\ SubSeq(fs[f], 1, 6) \in {"types:", "schema"})
\* success means that all of it was taken
Complete == pc = "done" /\ exit = 0 => (IF now.o = "" THEN prints ELSE fs[now.o]) = res.out
Vectors == (Emit /\ pc = "done" /\ Len(hist) = Runs) => PrintT("RUNS " \o ToJson([fs |-> fs0, runs |-> hist]))
=============================================================================
