------------------------------ MODULE CliFs -------------------------------
(* A run of the command line program and the files around it.              *)
(* A run is described by                                                   *)
(*   o     where the result goes: "" (standard output) or a file name      *)
(*   ref   what generation gives for its arguments on the present files:   *)
(*         [a |-> "ok", out |-> text] or [a |-> "err", out |-> ""]         *)
(*   sink  FALSE where the target cannot be opened or written              *)
(*   dead  TRUE where the process is killed before its input is complete   *)
(*   torn  TRUE where writing the result begins and then fails: what is in  *)
(*         the target then is not said                                     *)
(* What is observed of it:                                                 *)
(*   exit  status, stdout text, msg (something on standard error)          *)
(*   fs    the files afterwards: names with contents, absent ones "-"      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Absent == "-"
\* a failure while writing shows only in a run that has something to write
Torn(run) == run.torn /\ run.ref.a = "ok" /\ run.sink /\ ~run.dead
Succeeds(run) == run.ref.a = "ok" /\ run.sink /\ ~run.dead /\ ~Torn(run)
\* the files after a run
FilesAfter(fs, run) == IF Succeeds(run) /\ run.o # "" THEN [fs EXCEPT ![run.o] = run.ref.out] ELSE fs
\* what it prints
Printed(run) == IF Succeeds(run) /\ run.o = "" THEN run.ref.out ELSE ""

\* what is wrong with what was observed
Mis(fs, run, obs) ==
  LET want == FilesAfter(fs, run)
      differ == {f \in DOMAIN fs : obs.fs[f] # want[f]} \ (IF Torn(run) THEN {run.o} ELSE {})
  IN (IF run.dead THEN {}
      ELSE (IF Succeeds(run) # (obs.exit = 0) THEN {"exit"} ELSE {})
           \cup (IF ~Succeeds(run) /\ ~obs.msg THEN {"message"} ELSE {}))
     \cup (IF run.o = "" /\ (~run.sink \/ Torn(run)) THEN {} ELSE IF obs.stdout # Printed(run) THEN {"stdout"} ELSE {})
     \cup (IF run.o # "" /\ run.o \in differ /\ Succeeds(run) THEN {"result"} ELSE {})
     \cup (IF run.o # "" /\ run.o \in differ /\ ~Succeeds(run) THEN {"overwritten"} ELSE {})
     \cup (IF differ \ {run.o} # {} THEN {"other file"} ELSE {})
=============================================================================
