------------------------------ MODULE DateExprs ------------------------------
(* Date expressions: what a date given in a ledger entry or in an option means,  *)
(* relative to today.                                                          *)
EXTENDS Dates

NoDate == [ok |-> FALSE, day |-> 0, days |-> {}]
OneDate(n) == [ok |-> TRUE, day |-> n, days |-> {n}]

RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN NumEnd(s, i + 1) ELSE i
\* The numbers of a date without suffix, e.g. "2020/1/5" |-> <<"2020", "1", "5">>; <<>> if it is none.
NumParts(s) == LET p == Split(s, "/") IN
  IF s # "" /\ Len(p) <= 3 /\ \A i \in 1..Len(p) : p[i] # "" /\ NumEnd(p[i], 1) > Len(p[i]) THEN p ELSE <<>>
SmallNum(t) == Len(t) \in 1..2

Day(y, m, d) == IF m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m) THEN {DayNum(y, m, d)} ELSE {}
\* Those of S that are closest to x.
Nearest(S, x) == {n \in S : \A k \in S : Abs(n - x) <= Abs(k - x)}

\* The days a base expression may mean: {} if it means none, more than one in case of a tie.
BaseDays(s, today) ==
  LET p == NumParts(s)
      now == Civil(today) IN
  IF Len(p) = 3 /\ Len(p[1]) \in {2, 4} /\ SmallNum(p[2]) /\ SmallNum(p[3]) THEN
     LET y == ValOf(p[1]) m == ValOf(p[2]) d == ValOf(p[3]) IN
     IF Len(p[1]) = 4 THEN Day(y, m, d)
     \* two digits: the closest year with those last digits
     ELSE LET ys == Nearest({k \in (now.y - 60)..(now.y + 60) : k % 100 = y}, now.y) IN UNION {Day(k, m, d) : k \in ys}
  ELSE IF Len(p) = 2 /\ SmallNum(p[1]) /\ SmallNum(p[2]) THEN
     Nearest(UNION {Day(y, ValOf(p[1]), ValOf(p[2])) : y \in (now.y - 1)..(now.y + 1)}, today)
  ELSE IF Len(p) = 2 /\ Len(p[1]) = 4 /\ SmallNum(p[2]) THEN Day(ValOf(p[1]), ValOf(p[2]), 1)
  ELSE IF Len(p) = 1 /\ Len(p[1]) = 4 THEN Day(ValOf(p[1]), 1, 1)
  ELSE {}

\* The suffix: sign, number, unit; position of the sign, 0 if there is none.
SignAt(s) == LET C == {k \in 1..Len(s) : Ch(s, k) \in {"+", "-"}} IN IF C = {} THEN 0 ELSE CHOOSE k \in C : \A m \in C : k <= m
SuffixOk(x) == Len(x) >= 3 /\ Ch(x, Len(x)) \in {"d", "w", "m", "y"} /\ NumEnd(x, 2) = Len(x)
Shift(n, x) ==
  LET k == ValOf(SubSeq(x, 2, Len(x) - 1)) * (IF Ch(x, 1) = "-" THEN -1 ELSE 1) u == Ch(x, Len(x)) IN
  IF u = "d" THEN n + k ELSE IF u = "w" THEN n + 7 * k ELSE IF u = "m" THEN AddMonths(n, k) ELSE AddYears(n, k)
\* Only days of the years 0000 to 9999 can be written: no offset greater than this leads from one to another.
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN NoZeros(From(t, 2)) ELSE t
OffsetOk(x) == LET t == NoZeros(SubSeq(x, 2, Len(x) - 1)) u == Ch(x, Len(x)) IN
  Len(t) <= 7 /\ ValOf(t) <= (IF u = "d" THEN 3660000 ELSE IF u = "w" THEN 600000 ELSE IF u = "m" THEN 120000 ELSE 10000)
FirstDay == DayNum(0, 1, 1)
LastDay == DayNum(9999, 12, 31)

\* The days a date expression may mean.
DaysOf(s, today) ==
  LET g == SignAt(s) IN
  IF g = 0 THEN BaseDays(s, today)
  ELSE IF ~SuffixOk(From(s, g)) \/ ~OffsetOk(From(s, g)) THEN {}
  ELSE {n \in {Shift(b, From(s, g)) : b \in IF g = 1 THEN {today} ELSE BaseDays(SubSeq(s, 1, g - 1), today)} : n \in FirstDay..LastDay}
DateOf(s, today) ==
  LET D == DaysOf(s, today) IN IF D = {} THEN NoDate ELSE [ok |-> TRUE, day |-> CHOOSE n \in D : TRUE, days |-> D]

\* Two years are equally close, and the day exists in one of them only: it may be taken to be the other.
Doubtful(s, today) ==
  LET g == SignAt(s)
      p == NumParts(IF g = 0 THEN s ELSE SubSeq(s, 1, g - 1)) IN
  Len(p) = 3 /\ Len(p[1]) = 2 /\ (Civil(today).y - ValOf(p[1])) % 100 = 50 /\ ValOf(p[2]) = 2 /\ ValOf(p[3]) = 29

\* Where a date that starts at i ends: characters that can be part of one.
DateChars == DOMAIN DigitVal \cup {"/", "+", "-", "d", "w", "m", "y"}
RECURSIVE DateEnd(_, _)
DateEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in DateChars THEN DateEnd(s, i + 1) ELSE i
=============================================================================
