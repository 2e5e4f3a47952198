------------------------------- MODULE Trace_Dates -------------------------------
(* Checks what the real programs make of date expressions.                        *)
EXTENDS DateExprs, TraceBase
VARIABLE l
tvars == <<l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == l = 1
Begin == Is("begin")
\* today: a day number.
Case(c) ==
  \E D \in {DaysOf(c.s, Ev.today)} :
  LET texts == {DateText(n) : n \in D} IN
  /\ Require(l, "a date expression is accepted exactly if it denotes a day", (c.ok <=> D # {}) \/ (~c.ok /\ Doubtful(c.s, Ev.today)), [s |-> c.s, today |-> DateText(Ev.today), ok |-> c.ok, out |-> c.out, days |-> texts])
  /\ (c.ok /\ D # {}) => Require(l, "the day a date expression denotes", c.out \in texts, [s |-> c.s, today |-> DateText(Ev.today), out |-> c.out, days |-> texts])
TDates == Is("dates") /\ \A i \in DOMAIN Ev.cases : Case(Ev.cases[i])
\* A ledger with one transaction on each of the days lo to hi, restricted by an option.
TOption ==
  /\ Is("option")
  /\ \E D \in {DaysOf(Ev.s, Ev.today)} :
     LET Shows(n) == LET from == IF Ev.opt = "b" THEN MaxOf(n, Ev.lo) ELSE Ev.lo
                         to == IF Ev.opt = "e" THEN MinOf(n - 1, Ev.hi) ELSE Ev.hi
                     IN IF from > to THEN [count |-> 0, first |-> "", last |-> ""]
                        ELSE IF ~Ev.full THEN [count |-> to - from + 1, first |-> "", last |-> ""]
                        ELSE [count |-> to - from + 1, first |-> DateText(from), last |-> DateText(to)]
     IN /\ Require(l, "an option with a date is accepted exactly if it denotes a day", (Ev.ok <=> D # {}) \/ (~Ev.ok /\ Doubtful(Ev.s, Ev.today)), [s |-> Ev.s, ok |-> Ev.ok, out |-> Ev.obs])
        /\ (Ev.ok /\ D # {}) => Require(l, "the day the date of an option denotes", Ev.obs \in {Shows(n) : n \in D}, [s |-> Ev.s, out |-> Ev.obs, days |-> {DateText(n) : n \in D}])
TraceNext == Begin \/ TDates \/ TOption
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
