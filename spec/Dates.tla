-------------------------------- MODULE Dates --------------------------------
(* The civil (Gregorian) calendar over day numbers; day 0 is 1970/01/01.       *)
EXTENDS Strs

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLens == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLens[m]
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOfYear(y, m, d) == Cum[m] + d + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

\* Days before January 1st of year y, counted from 0001/01/01.
DaysBefore(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
Epoch == DaysBefore(1970)
DayNum(y, m, d) == DaysBefore(y) + DayOfYear(y, m, d) - 1 - Epoch

\* The year of a day number: the estimate is off by at most one.
YearOf(n) ==
  LET k == n + Epoch
      e == (400 * k) \div 146097 + 1
  IN CHOOSE y \in (e - 1)..(e + 1) : DaysBefore(y) <= k /\ k < DaysBefore(y + 1)
Civil(n) ==
  LET y == YearOf(n)
      o == n + Epoch - DaysBefore(y) + 1            \* day of year
      m == CHOOSE i \in 1..12 : DayOfYear(y, i, 1) <= o /\ (i = 12 \/ o < DayOfYear(y, i + 1, 1))
  IN [y |-> y, m |-> m, d |-> o - DayOfYear(y, m, 1) + 1]

Weekday(n) == (n + 4) % 7       \* 0 is Sunday; 1970/01/01 was a Thursday

DateText(n) == LET c == Civil(n) IN
  PadZero(ToString(c.y), 4) \o "/" \o PadZero(ToString(c.m), 2) \o "/" \o PadZero(ToString(c.d), 2)
MonthText(n) == LET c == Civil(n) IN PadZero(ToString(c.y), 4) \o "/" \o PadZero(ToString(c.m), 2)
YearText(n) == PadZero(ToString(Civil(n).y), 4)

WeekStart(n) == n - Weekday(n)
MonthStart(n) == LET c == Civil(n) IN DayNum(c.y, c.m, 1)
QuarterStart(n) == LET c == Civil(n) IN DayNum(c.y, ((c.m - 1) \div 3) * 3 + 1, 1)
YearStart(n) == DayNum(Civil(n).y, 1, 1)

\* Calendar addition of months: a day beyond the end of the month spills over.
AddMonths(n, k) ==
  LET c == Civil(n)
      t == c.y * 12 + (c.m - 1) + k
      y == t \div 12
      m == (t % 12) + 1
  IN DayNum(y, m, 1) + c.d - 1
AddYears(n, k) == AddMonths(n, 12 * k)
Exists(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
=============================================================================
