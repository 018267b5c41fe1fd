---------------------------- MODULE OptionsModel ----------------------------
(* All token sequences up to a length: the machine accepts exactly the     *)
(* blocks, and the options it has set are what the entries mean.           *)
EXTENDS OptionsBlock, TLC, Json
CONSTANTS MaxLen, Emit
T(t, s) == [t |-> t, s |-> s]
P(t) == T(t, <<>>)
Tokens == {P("{"), P("}"), P(":"), P(","),
           T("id", N("deny_unknown_fields")), T("str", N("deny_unknown_fields")), T("id", N("unwrap")), T("str", N("derives")),
           T("id", N("true")), T("id", N("false")), T("str", N("true")), T("id", <<120>>), T("str", <<120>>),
           T("str", <<47, 97>>), T("str", <<>>), T("id", N("use_type")), T("str", N("type_name")), T("raw", <<121>>), P("other")}
VARIABLES ts, b
Init == ts = <<>> /\ b = BStart
Next == /\ Len(ts) < MaxLen /\ b.m # "refused"
        /\ \E t \in Tokens : ts' = Append(ts, t) /\ b' = BStep(b, t)
Agrees == Accepted(b) <=> IsBlock(ts)
Means == Accepted(b) => b.o = Meaning(ts)
NothingAfter == b.m = "end" => \A t \in Tokens : BStep(b, t).m = "refused"
RefusedStays == b.m = "refused" => \A t \in Tokens : ~IsBlock(Append(ts, t))
\* flags and text options do not depend on the order of entries with different names
OthersDefault == Accepted(b) =>
  /\ \A f \in Flags : b.o.flags[f] => \E i \in DOMAIN ts : Name(ts[i]) /\ ts[i].s = N(f)
  /\ \A x \in DOMAIN b.o.texts : \E i \in DOMAIN ts : Name(ts[i]) /\ ts[i].s = N(x)
  /\ b.o.hints # <<>> => \E i \in DOMAIN ts : Str(ts[i]) /\ IsPointer(ts[i].s)
Vectors == Emit /\ (b.m = "refused" \/ Accepted(b)) => PrintT("TOK " \o ToJson([ts |-> ts, ok |-> Accepted(b)]))
=============================================================================
