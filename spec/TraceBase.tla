----------------------------- MODULE TraceBase -----------------------------
(* Recorded events are consumed by W chains, so that W workers share them. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

W == 8
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES chain, pos
TInit == chain \in 1..W /\ pos = chain
Consume == pos <= Len(Trace) /\ pos' = pos + W /\ UNCHANGED chain
Report(e, tags) == tags = {} \/ PrintT("BAD " \o ToJson([id |-> e.id, tags |-> tags]))
TAccepted == TLCGet("stats").distinct = Len(Trace) + W
=============================================================================
