-------------------------- MODULE Trace_Determinism --------------------------
(* Repeated runs of the real programs against Determinism.                      *)
EXTENDS Determinism, TraceBase
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == DInit /\ l = 1
Begin == Is("begin") /\ answers' = [r \in {} |-> ""]
\* An answer that differs from the earlier one is reported; the earlier one stands.
Run == /\ Is("run")
       /\ IF Given(Ev.request) /\ answers[Ev.request] # Ev.answer
          THEN Verdict(l, "answer to " \o Ev.request, answers[Ev.request], Ev.answer) /\ UNCHANGED answers
          ELSE Answer(Ev.request, Ev.answer)
TraceNext == Begin \/ Run
TraceSpec == TraceInit /\ [][TraceNext]_<<answers, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
