------------------------------ MODULE Recurrence ------------------------------
(* Recurring days: a rule picks some of its days in every interval-th week or month *)
(*   [k |-> "week" / "month", count, interval, days]                                *)
(* Days of a week are 0 (Sunday) to 6; days of a month count from 1, or backwards    *)
(* from -1, the last one.  All days are meant when there are none.                   *)
EXTENDS Dates

Interval(r) == IF r.interval < 1 THEN 1 ELSE r.interval
Start(r, n) == IF r.k = "week" THEN WeekStart(n) ELSE MonthStart(n)
NextStart(r, p) == IF r.k = "week" THEN p + 7 * Interval(r) ELSE AddMonths(p, Interval(r))
Length(r, p) == IF r.k = "week" THEN 7 ELSE LET c == Civil(p) IN DaysIn(c.y, c.m)
AllDays(r, p) == IF r.k = "week" THEN [i \in 1..7 |-> i - 1] ELSE [i \in 1..Length(r, p) |-> i]
DaysOf(r, p) == IF r.days = <<>> THEN AllDays(r, p) ELSE r.days
\* The day that x of the period starting at p is; -1 if the period has no such day.
DayFor(r, p, x) ==
  IF r.k = "week" THEN p + x
  ELSE IF x > 0 /\ x <= Length(r, p) THEN p + x - 1
  ELSE IF x < 0 /\ -x <= Length(r, p) THEN p + Length(r, p) + x
  ELSE -1000000
Valid(r, p, x, b, e) == LET d == DayFor(r, p, x) IN d >= b /\ d <= e
\* The days for a choice S of positions in the days of the rule, in order.
Picked(r, p, S, b, e) ==
  LET V == {i \in S : Valid(r, p, DaysOf(r, p)[i], b, e)}
      q == SetToSortSeq(V, LAMBDA i, j : LET x == DayFor(r, p, DaysOf(r, p)[i]) y == DayFor(r, p, DaysOf(r, p)[j]) IN x < y \/ (x = y /\ i < j))
  IN [k \in 1..Len(q) |-> DayFor(r, p, DaysOf(r, p)[q[k]])]
PickSets(r, p) == LET n == Len(DaysOf(r, p)) IN {S \in SUBSET (1..n) : Cardinality(S) = MaxOf(0, MinOf(r.count, n))}

\* The same without trying the choices: days of one period, ascending, that some choice gives.
CanPick(r, p, ds, b, e) ==
  LET days == DaysOf(r, p) n == Len(days)
      Vis == {i \in 1..n : Valid(r, p, days[i], b, e)}
      k == MaxOf(0, MinOf(r.count, n))
      Giving(d) == Cardinality({i \in Vis : DayFor(r, p, days[i]) = d})
      Among(d) == Cardinality({i \in 1..Len(ds) : ds[i] = d})
  IN /\ \A i \in 1..(Len(ds) - 1) : ds[i] <= ds[i + 1]
     /\ \A i \in 1..Len(ds) : Among(ds[i]) <= Giving(ds[i])
     /\ Len(ds) <= k /\ k - Len(ds) <= n - Cardinality(Vis)
RECURSIVE Starts(_, _, _)
Starts(r, p, e) == IF p > e THEN <<>> ELSE <<p>> \o Starts(r, NextStart(r, p), e)
\* Days from b to e that the rule allows, in order.
Allowed(r, b, e, ds) ==
  LET ps == IF b > e THEN <<>> ELSE Starts(r, Start(r, b), e)
      Of(p) == SelectSeq(ds, LAMBDA d : d >= p /\ d < p + Length(r, p))
  IN /\ \A i \in 1..(Len(ds) - 1) : ds[i] <= ds[i + 1]
     /\ \A i \in 1..Len(ds) : ds[i] >= b /\ ds[i] <= e
     /\ \A i \in 1..Len(ps) : CanPick(r, ps[i], Of(ps[i]), b, e)
     /\ SumSeq([i \in 1..Len(ps) |-> Len(Of(ps[i]))]) = Len(ds)

-----------------------------------------------------------------------------
(* The generator, period by period.                                                 *)
VARIABLES rule, from, to, at, out
rvars == <<rule, from, to, at, out>>
RInit(r, b, e) == rule = r /\ from = b /\ to = e /\ at = Start(r, b) /\ out = <<>>
RStep ==
  /\ at <= to
  /\ \E S \in PickSets(rule, at) : out' = out \o Picked(rule, at, S, from, to)
  /\ at' = NextStart(rule, at)
  /\ UNCHANGED <<rule, from, to>>
RDone == at > to
=============================================================================
