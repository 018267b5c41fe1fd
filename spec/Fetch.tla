-------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Reading a sample from a source that delivers it piece by piece and may  *)
(* fail. A source holds a document (bytes) and sends pieces of it in order;*)
(* the reader feeds them to the byte machine of JsonText. How a source can *)
(* end depends on its kind:                                                *)
(*   file    eof after the last byte; eio at any point                     *)
(*   pipe    standard input: as file                                       *)
(*   length  HTTP with Content-Length: close after the announced length;   *)
(*           close before that, or reset                                   *)
(*   chunked HTTP with chunks: last-chunk; close without it, reset, a      *)
(*           chunk that is malformed, or close inside a chunk (cut)        *)
(*   until   HTTP body that ends with the connection: close; reset. What   *)
(*           was sent before the close is the document then (the format    *)
(*           has no way to tell)                                           *)
(* A read may also be interrupted by a signal (EINTR) and repeated.        *)
(***************************************************************************)
EXTENDS JsonText

Kinds == {"file", "pipe", "length", "chunked", "until"}
Http(kind) == kind \in {"length", "chunked", "until"}
Endings(kind) ==
  CASE kind \in {"file", "pipe"} -> {"eof", "eio"}
    [] kind = "length" -> {"close", "reset"}
    [] kind = "chunked" -> {"last", "close", "reset", "bad", "cut"}
    [] OTHER -> {"close", "reset"}
\* an ending after which the reader knows that it has seen the whole document
Proper(kind, end, sent, announced) ==
  CASE kind \in {"file", "pipe"} -> end = "eof"
    [] kind = "length" -> end = "close" /\ sent = announced
    [] kind = "chunked" -> end = "last"
    [] OTHER -> end = "close"

----------------------------------------------------------------------------
(* The reader                                                              *)
Opened(status) == [q |-> Start, sent |-> 0, res |-> IF status >= 400 THEN "error" ELSE "open", v |-> NoVal]
Piece(f, bytes) ==
  IF f.res # "open" THEN f
  ELSE LET q == FoldLeft(Step, f.q, bytes)
       IN [f EXCEPT !.q = q, !.sent = @ + Len(bytes), !.res = IF q.m = "dead" THEN "error" ELSE "open"]
Ended(f, kind, end, announced) ==
  IF f.res # "open" THEN f
  ELSE LET q == Finish(f.q)
       IN IF Proper(kind, end, f.sent, announced) /\ q.m = "end" THEN [f EXCEPT !.res = "types", !.v = q.v]
          ELSE [f EXCEPT !.res = "error"]
\* a whole transfer: pieces are lengths
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(f, doc, cuts) ==
  IF cuts = <<>> THEN f
  ELSE PiecesFrom(Piece(f, SubSeq(doc, f.sent + 1, f.sent + Head(cuts))), doc, Tail(cuts))
Transfer(doc, kind, status, cuts, end) ==
  IF status >= 400 THEN Opened(status) ELSE Ended(PiecesFrom(Opened(status), doc, cuts), kind, end, Len(doc))

\* what the reader may say, without looking at the pieces
Fate(doc, kind, status, sent, end) ==
  IF status < 400 /\ Proper(kind, end, sent, Len(doc)) /\ WellFormedText(SubSeq(doc, 1, sent)) THEN "types" ELSE "error"
=============================================================================
