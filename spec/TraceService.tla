--------------------------- MODULE TraceService ---------------------------
(* Recorded answers, in the order of the samples. Each event is a call of  *)
(* Service with its answer (a: "ok" or "err", out: the text or its digest) *)
(* and, for calls of which only that much is known, out = "?".             *)
(* The trace specification remembers the answers for the present sample.   *)
EXTENDS Service, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES pos, memo, sample
TInit == pos = 1 /\ memo = <<>> /\ sample = ""
Known == IF Trace[pos].s = sample THEN memo ELSE <<>>
Tags(e) ==
  LET k == Key(e)
  IN IF e.a \notin {"ok", "err"} THEN {e.a}
     ELSE IF k \notin DOMAIN Known THEN {}
     ELSE IF e.a # Known[k].a THEN {"outcome"}
     ELSE IF e.out = "?" \/ Known[k].out = "?" \/ e.out = Known[k].out THEN {} ELSE {"output"}
TNext ==
  /\ pos <= Len(Trace)
  /\ LET e == Trace[pos]  tags == Tags(Trace[pos])
     IN /\ IF tags = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> e.id, tags |-> tags]))
        /\ memo' = IF e.a \notin {"ok", "err"} THEN Known
                   ELSE IF Key(e) \in DOMAIN Known THEN Known
                   ELSE (Key(e) :> [a |-> e.a, out |-> e.out]) @@ Known
        /\ sample' = e.s
  /\ pos' = pos + 1
TAccepted == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
