-------------------------------- MODULE MC_Dates --------------------------------
(* The calendar and the meaning of date expressions, day by day.                  *)
EXTENDS DateExprs, TLC
CONSTANTS Starts, Span, Full     \* Starts: years; Full: every expression around the day, rather than some
VARIABLES day, k
MCInit == day \in {DayNum(y, 12, 1) : y \in Starts} /\ k = 0
MCNext == k < Span /\ k' = k + 1 /\ day' = day + 1
MCSpec == MCInit /\ [][MCNext]_<<day, k>>
C == Civil(day)
Inverted == DayNum(C.y, C.m, C.d) = day /\ Exists(C.y, C.m, C.d)
Successor == LET s == Civil(day + 1) IN
  IF C.d < DaysIn(C.y, C.m) THEN s = [C EXCEPT !.d = C.d + 1]
  ELSE s.d = 1 /\ s = IF C.m = 12 THEN [y |-> C.y + 1, m |-> 1, d |-> 1] ELSE [y |-> C.y, m |-> C.m + 1, d |-> 1]
Starting == /\ WeekStart(day) \in (day - 6)..day /\ Weekday(WeekStart(day)) = 0
            /\ MonthStart(day) = day - C.d + 1 /\ QuarterStart(day) <= MonthStart(day) /\ YearStart(day) <= QuarterStart(day)
            /\ Civil(QuarterStart(day)).m \in {1, 4, 7, 10} /\ MonthStart(day) - QuarterStart(day) < 63
\* Moving by months keeps the day, or spills over.
Moved == \A i \in {-25, -12, -1, 0, 1, 2, 11, 12, 30} :
  LET r == Civil(AddMonths(day, i)) f == Civil(AddMonths(MonthStart(day), i)) IN
  /\ f.d = 1 /\ f.y * 12 + f.m = C.y * 12 + C.m + i
  /\ IF C.d <= DaysIn(f.y, f.m) THEN r = [f EXCEPT !.d = C.d] ELSE r.d = C.d - DaysIn(f.y, f.m) /\ r.d <= 3
  /\ AddMonths(day, 12 * i) = AddYears(day, i)
MD(c) == ToString(c.m) \o "/" \o ToString(c.d)
Pad(t) == PadZero(t, 2)
\* A full date is that day whatever today is; today's date without year is today.
FullDate == \A t \in {day - 40000, day - 1, day, day + 366, day + 20000} :
  DaysOf(DateText(day), t) = {day} /\ DaysOf(PadZero(ToString(C.y), 4) \o "/" \o MD(C), t) = {day}
\* The day of any date at most half a year away is what its month and day denote; no other is closer than half a year.
Near == \A i \in IF Full THEN -182..182 ELSE {-182, -181, -31, -1, 0, 1, 60, 181, 182} :
  DaysOf(MD(Civil(day + i)), day) = {day + i}
Far == \A i \in {184, -184, 300, -300, 366, -366} : LET c == Civil(day + i) IN
  (c.m = 2 /\ c.d = 29) \/ \A n \in DaysOf(MD(c), day) : Abs(n - day) <= 183
\* Two digit years within 49 years; a 29th of February needs a leap year
TwoDigits == \A i \in IF Full THEN -49..49 ELSE {-49, -48, -1, 0, 1, 20, 49} : LET y == C.y + i IN
  DaysOf(Pad(ToString(y % 100)) \o "/" \o MD(C), day) = IF Exists(y, C.m, C.d) THEN {DayNum(y, C.m, C.d)} ELSE {}
Fifty == C.d <= 28 => DaysOf(Pad(ToString((C.y + 50) % 100)) \o "/" \o MD(C), day) = {DayNum(C.y - 50, C.m, C.d), DayNum(C.y + 50, C.m, C.d)}
Parts == /\ DaysOf(PadZero(ToString(C.y), 4), day) = {YearStart(day)}
         /\ DaysOf(PadZero(ToString(C.y), 4) \o "/" \o ToString(C.m), day + 99) = {MonthStart(day)}
Offsets == /\ DaysOf("+1d", day) = {day + 1} /\ DaysOf("-2w", day) = {day - 14} /\ DaysOf("+0m", day) = {day}
           /\ DaysOf(DateText(day) \o "+13m", 0) = {AddMonths(day, 13)} /\ DaysOf(PadZero(ToString(C.y), 4) \o "-1y", 0) = {DayNum(C.y - 1, 1, 1)}
Nothing == \A x \in {"", "+", "1", "13/1", "0/1", "1/32", "2/30", "4/31", "2021/2/29", "2020/1/1/1", "1/1/1", "20200101", "+1", "+d", "1d", "2020/+1d", " 2020", "2020 ", "+1d+1d", "x"} : DaysOf(x, day) = {}
=============================================================================
