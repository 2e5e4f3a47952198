----------------------------- MODULE Trace_Rewrite -----------------------------
(* Checks traces of the real coin format and coin modify against Rewriting.     *)
EXTENDS Rewriting, TraceBase

VARIABLE l
tvars == <<lvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == LInit /\ l = 1

Begin == /\ Is("begin")
         /\ coms' = [x \in {} |-> x] /\ dflt' = "CAD"
         /\ accts' = <<>> /\ prices' = <<>> /\ txns' = <<>>
         /\ phase' = "open" /\ led' = NoLedger
\* The database with the file to be rewritten as its transactions.coin.
TText == Is("text") /\ ReadDatabaseText(Ev.fs, Ev.today)
TLoadFile == Is("loadfile") /\ IF phase = "open" THEN LoadFile ELSE UNCHANGED lvars

Loaded == phase = "loaded"
\* Text made of the file's transactions; what: how it was made.
TFormat ==
  /\ Is("format")
  /\ Verdict(l, "format succeeds", Loaded, Ev.ok)
  /\ (Loaded /\ Ev.ok) =>
       \E r \in {ReadBack(Ev.out, Ev.today)} : \E x \in {Formatted(led, Ev.t)} :
         /\ Require(l, "the output is readable", r.ok, Ev.out)
         /\ r.ok => Verdict(l, "formatted transactions", x, r.txns)
         /\ (r.ok /\ ~Ev.t) => Verdict(l, "tags", [i \in 1..Len(x) |-> TagsForm(x[i])], [i \in 1..Len(r.txns) |-> TagsForm(r.txns[i])])
  /\ UNCHANGED lvars
\* Two texts that have to be the same, up to the leading blanks of notes or exactly.
TSameText ==
  /\ Is("sametext")
  /\ Require(l, Ev.what, IF Ev.exact THEN Ev.a = Ev.b ELSE SameText(Ev.a, Ev.b), [first |-> Ev.a, second |-> Ev.b])
  /\ UNCHANGED lvars
TUnquoted ==
  /\ Is("unquoted")
  /\ \E a \in {ReadBack(Ev.a, Ev.today)} : \E b \in {ReadBack(MapSeq(Ev.b, Unquoted), Ev.today)} :
       Verdict(l, "the ledger form is the same but for quotes", a, b)
  /\ UNCHANGED lvars

TModify ==
  /\ Is("modify")
  /\ LET m == Ev.m ok == Loaded /\ ModifyOk(led, m) IN
     /\ Verdict(l, "modify succeeds", ok, Ev.ok)
     /\ (ok /\ Ev.ok) =>
        \E r \in {ReadBack(Ev.out, Ev.today)} : \E x \in {Modified(led, m)} :
          /\ Require(l, "the rewritten file is readable", r.ok, Ev.out)
          /\ r.ok =>
             /\ Verdict(l, "transactions but for notes", MapSeq(x, WithoutNotes), MapSeq(r.txns, WithoutNotes))
             /\ Verdict(l, "tags", ModifiedTags(led, m), MapSeq(r.txns, TagsForm))
             /\ Require(l, "notes are kept", AllNotesKept(led, m, r.txns), [expected |-> x, observed |-> r.txns])
          /\ MovesNowhere(led, m) \/ Verdict(l, "number of changed transactions", NumberChanged(led, m), Ev.count)
  /\ UNCHANGED lvars

TraceNext == Begin \/ TText \/ TLoadFile \/ TFormat \/ TSameText \/ TUnquoted \/ TModify
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
