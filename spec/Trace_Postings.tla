----------------------------- MODULE Trace_Postings -----------------------------
(* Checks recorded histories of the postings of real accounts.                    *)
EXTENDS PostingIndex, TraceBase
VARIABLE l
tvars == <<pvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == PInit /\ l = 1
Begin == Is("begin") /\ idx' = <<>> /\ info' = <<>>
\* The postings of every account after the operation.
Shown == \A i \in DOMAIN Ev.lists : Verdict(l, "postings of account " \o Ev.lists[i].acct, List(idx', Ev.lists[i].acct), Ev.lists[i].ids)
TPost == Is("post") /\ Post(Ev.posts) /\ Shown
TMove == Is("move") /\ Move(Ev.id, Ev.to) /\ Shown
TDrop == Is("drop") /\ Drop(SeqSet(Ev.txns)) /\ Shown
TraceNext == Begin \/ TPost \/ TMove \/ TDrop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
