----------------------------- MODULE TraceCli -----------------------------
(* Recorded sequences of runs, and the files after each. k = "init" gives  *)
(* the files of a new sequence; k = "mid" looks at them during a run.      *)
EXTENDS CliFs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pos, fs
TInit == pos = 1 /\ fs = <<>>
Tags(e) == IF e.k = "init" THEN {}
           ELSE IF e.k = "mid" THEN IF e.obs.fs = fs THEN {} ELSE {"early"}
           ELSE Mis(fs, e.run, e.obs)
TNext ==
  /\ pos <= Len(Trace)
  /\ LET e == Trace[pos]  tags == Tags(Trace[pos])
     IN /\ IF tags = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> e.id, tags |-> tags]))
        /\ fs' = IF e.k = "init" THEN e.fs ELSE IF tags = {} /\ e.k = "run" /\ ~Torn(e.run) THEN FilesAfter(fs, e.run) ELSE e.obs.fs
  /\ pos' = pos + 1
TAccepted == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
