----------------------------- MODULE FetchModel -----------------------------
(* Every way to send every document of a set: all partitions into pieces,  *)
(* interrupted reads between them, all endings at all points.              *)
EXTENDS Fetch, TLC, Json
CONSTANTS Emit, MaxIntr, MaxLen

Docs == {d \in {
  <<91, 49, 50, 93>>,                         \* [12]
  <<91, 93, 32, 10>>,                         \* [] and white space
  <<123, 34, 97, 34, 58, 49, 125>>,           \* {"a":1}
  <<91, 34, 195, 169, 34, 93>>,               \* ["e acute"]
  <<91, 34, 92, 117, 48, 48, 101, 57, 34, 93>>,  \* ["\u00e9"]
  <<91, 49, 46, 53, 101, 43, 49, 93>>,        \* [1.5e+1]
  <<91, 116, 114, 117, 101, 44, 48, 93>>,     \* [true,0]
  <<49, 50, 51>>,                             \* 123: every prefix is well-formed
  <<49, 46, 53>>,                             \* 1.5
  <<110, 117, 108, 108, 10>>,                 \* null
  <<91, 49, 93, 93>>,                         \* [1]]
  <<91, 49, 44>>,                             \* [1,
  <<34, 240, 159, 152, 128, 34>>,             \* an emoji in a string
  <<32, 32>>,
  <<>>} : Len(d) <= MaxLen}
Statuses(kind) == IF Http(kind) THEN {200, 201, 404, 500} ELSE {0}

VARIABLES doc, kind, status, cuts, intr, f, end
vars == <<doc, kind, status, cuts, intr, f, end>>
Init ==
  /\ doc \in Docs /\ kind \in Kinds /\ status \in Statuses(kind)
  /\ cuts = <<>> /\ intr = <<>> /\ end = "none"
  /\ f = Opened(status)
Sent == FoldLeft(LAMBDA a, b : a + b, 0, cuts)
Send ==
  /\ end = "none"
  \* the body of an error response is of no interest: in one piece
  /\ \E n \in IF status >= 400 THEN {Len(doc)} \ {0} ELSE 1..(Len(doc) - Sent) :
       /\ Sent + n <= Len(doc)
       /\ cuts' = Append(cuts, n)
       /\ f' = Piece(f, SubSeq(doc, Sent + 1, Sent + n))
  /\ UNCHANGED <<doc, kind, status, intr, end>>
Interrupt ==                          \* the read is repeated: nothing changes for the reader
  /\ end = "none" /\ kind \in {"file", "pipe"} /\ Len(intr) < MaxIntr
  /\ IF intr = <<>> THEN TRUE ELSE Last(intr) < Len(cuts)
  /\ intr' = Append(intr, Len(cuts))
  /\ UNCHANGED <<doc, kind, status, cuts, f, end>>
End ==
  /\ end = "none"
  /\ end' \in Endings(kind)
  /\ (kind \in {"file", "pipe"} /\ end' = "eof" => Sent = Len(doc))
  /\ (kind = "chunked" /\ end' = "last" => Sent = Len(doc))
  /\ (end' = "cut" => cuts # <<>>)
  \* the reader is done with the announced length: what becomes of the connection then is not part of the transfer
  /\ (kind = "length" /\ end' = "reset" => Sent < Len(doc))
  /\ f' = Ended(f, kind, end', Len(doc))
  /\ UNCHANGED <<doc, kind, status, cuts, intr>>
Next == Send \/ Interrupt \/ End

Over == end # "none"
\* types only after the whole document (or what the format calls the whole document)
Whole == f.res = "types" => Over /\ (f.sent = Len(doc) \/ (kind = "until" /\ end = "close")) /\ status < 400
\* and then they are those of the document, however it was cut
Value == f.res = "types" => f.v = ValueOf(SubSeq(doc, 1, f.sent)) /\ (f.sent = Len(doc) => f.v = ValueOf(doc))
\* nothing is lost without a fault
NothingLost == Over /\ status < 400 /\ Proper(kind, end, Sent, Len(doc)) /\ Sent = Len(doc) /\ WellFormedText(doc) => f.res = "types"
\* the pieces do not matter
Chunking == Over => f.res = Fate(doc, kind, status, Sent, end)
Replayed == Over => Transfer(doc, kind, status, cuts, end).res = f.res
Answered == Over => f.res # "open"
Vectors == Emit /\ Over => PrintT("VEC " \o ToJson(
  [b |-> doc, kind |-> kind, status |-> status, cuts |-> cuts, intr |-> intr, end |-> end, res |-> f.res]))
=============================================================================
