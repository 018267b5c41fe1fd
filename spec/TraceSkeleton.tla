--------------------------- MODULE TraceSkeleton ---------------------------
(* Recorded pairs of calls whose answers have to be equal.                 *)
(* Event: a, b (samples), ra, rb (outcome and digest of each), or          *)
(* a, shape (a structure given directly), unwrap, hints, thr, ra, rb       *)
EXTENDS TraceBase, Skeleton
Equal(e) ==
  IF {e.ra.a, e.rb.a} \cap {"crash"} # {} THEN {"crash"}
  ELSE IF e.ra.a # e.rb.a THEN {"outcome"}
  ELSE IF e.ra.out # e.rb.out THEN {"output"} ELSE {}
Tags(e) ==
  IF e.k = "pair" THEN IF Same(e.a, e.b) THEN Equal(e) ELSE {"not-same"}
  ELSE LET ob == Observed(e.a, e.unwrap, e.hints)
       IN IF ob.err \/ Norm(ToJoin(e.shape)) # CanonNorm(ob.vs, e.thr) THEN {"not-same"} ELSE Equal(e)
TNext == Consume /\ Report(Trace[pos], Tags(Trace[pos]))
=============================================================================
