---------------------------- MODULE TraceRobust ----------------------------
(* What became of runs. d is <<>>, or a text u v^n w x^n y of JSON tokens;  *)
(* limit is how deep brackets were accepted when that was probed.           *)
EXTENDS TraceBase, Robust
Tags(e) ==
  (IF e.out \in Outcomes THEN {} ELSE {e.out})
  \cup (IF e.d = <<>> THEN {}
        ELSE LET p == e.d[1] IN
             (IF Depth(p) > e.limit /\ e.out = "types" THEN {"too-deep-accepted"} ELSE {})
             \cup (IF e.whole /\ Depth(p) <= e.limit /\ e.out = "error" THEN {"rejected-within-limit"} ELSE {}))
  \cup (IF e.limit \in 32..4096 THEN {} ELSE {"limit"})
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
