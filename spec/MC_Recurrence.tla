---------------------------- MODULE MC_Recurrence ----------------------------
EXTENDS Recurrence, Json
CONSTANTS MaxSpan
Weeks == {[k |-> "week", count |-> c, interval |-> i, days |-> d] : c \in 0..3, i \in {0, 1, 2}, d \in {<<1>>, <<5, 0>>, <<6, 2, 3>>}}
AnyDay == {[k |-> "week", count |-> c, interval |-> 1, days |-> <<>>] : c \in {1, 2}}
Months == {[k |-> "month", count |-> c, interval |-> i, days |-> d] : c \in {1, 2, 30}, i \in {1, 2}, d \in {<<1>>, <<15, -1>>, <<-1, -2, -3>>, <<30, -30>>, <<31, 0, 29>>}}
Begins == {DayNum(2020, 1, 31), DayNum(2020, 2, 2), DayNum(2021, 2, 1), DayNum(2019, 12, 30)}
Init == \E b \in Begins :
  \/ \E r \in Weeks, s \in 0..MaxSpan : RInit(r, b, b + s)
  \/ \E r \in AnyDay, s \in {0, 2, 6, 7} : RInit(r, b, b + s)
  \/ \E r \in Months, s \in {0, 1, 2, 27, 28, 29, 30, 31, 33, 60} \cup (40..(40 + MaxSpan)) : RInit(r, b, b + s)
MCSpec == Init /\ [][RStep]_rvars

\* Whatever is generated is allowed, and so far as it goes within the range and in order.
Sound == RDone => Allowed(rule, from, to, out)
InRange == \A i \in 1..Len(out) : out[i] >= from /\ out[i] <= to
Ascending == \A i \in 1..(Len(out) - 1) : out[i] <= out[i + 1]
\* And nothing else is: for one period, exactly what the choices give.
Complete ==
  (at <= to /\ (rule.k = "week" \/ Len(rule.days) <= 3)) =>
    LET D == {x \in at..(at + Length(rule, at) - 1) : \E i \in 1..Len(DaysOf(rule, at)) : DayFor(rule, at, DaysOf(rule, at)[i]) = x}
        Seqs == {SetToSortSeq(T, LAMBDA x, y : x < y) : T \in SUBSET D} IN
    \A q \in Seqs : CanPick(rule, at, q, from, to) <=> \E S \in PickSets(rule, at) : Picked(rule, at, S, from, to) = q
\* A period entirely within the range has as many as the rule says, when all of its days exist.
Full == (at <= to /\ at >= from /\ at + Length(rule, at) - 1 <= to
         /\ \A i \in 1..Len(DaysOf(rule, at)) : DayFor(rule, at, DaysOf(rule, at)[i]) > 0) =>
  \A S \in PickSets(rule, at) : Len(Picked(rule, at, S, from, to)) = MaxOf(0, MinOf(rule.count, Len(DaysOf(rule, at))))
=============================================================================
