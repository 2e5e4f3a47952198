-------------------------------- MODULE BigDec --------------------------------
(* Exact decimal numbers of any size: a sign and the magnitude as a sequence of  *)
(* limbs, the least significant first, none of them 0 at the end.  TLC's own      *)
(* integers have 32 bits, the amounts of a ledger have not.                       *)
EXTENDS Strs, Integers, Sequences, FiniteSets, SequencesExt

CONSTANT LimbDigits                 \* decimal digits of a limb, at most 4
Base == Pow10(LimbDigits)

RECURSIVE NoTopZeros(_)
NoTopZeros(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN NoTopZeros(SubSeq(m, 1, Len(m) - 1)) ELSE m
RECURSIVE LimbsOf(_)
\* The magnitude written as a string of digits.
LimbsOf(s) ==
  IF s = "" THEN <<>>
  ELSE IF Len(s) <= LimbDigits THEN <<ValOf(s)>>
  ELSE <<ValOf(From(s, Len(s) - LimbDigits + 1))>> \o LimbsOf(SubSeq(s, 1, Len(s) - LimbDigits))
Mag(s) == NoTopZeros(LimbsOf(s))
RECURSIVE DigitsUp(_, _)
DigitsUp(m, i) == IF i = 0 THEN "" ELSE (IF i = Len(m) THEN ToString(m[i]) ELSE PadZero(ToString(m[i]), LimbDigits)) \o DigitsUp(m, i - 1)
DigitsOf(m) == IF m = <<>> THEN "0" ELSE DigitsUp(m, Len(m))

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
CmpMag(a, b) ==
  LET D == {i \in 1..MaxOf(Len(a), Len(b)) : Limb(a, i) # Limb(b, i)} IN
  IF D = {} THEN 0 ELSE LET i == CHOOSE k \in D : \A j \in D : j <= k IN IF Limb(a, i) < Limb(b, i) THEN -1 ELSE 1
AddMag(a, b) ==
  LET n == MaxOf(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, i : LET t == Limb(a, i) + Limb(b, i) + acc.c IN [m |-> Append(acc.m, t % Base), c |-> t \div Base],
                    [m |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN NoTopZeros(Append(r.m, r.c))
\* a - b for a >= b
SubMag(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] - Limb(b, i) - acc.c IN [m |-> Append(acc.m, t % Base), c |-> IF t < 0 THEN 1 ELSE 0],
                    [m |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN NoTopZeros(r.m)
MulLimb(a, k) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] * k + acc.c IN [m |-> Append(acc.m, t % Base), c |-> t \div Base],
                    [m |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN NoTopZeros(Append(r.m, r.c))
RECURSIVE MulMag(_, _)
MulMag(a, b) == IF b = <<>> \/ a = <<>> THEN <<>> ELSE AddMag(MulLimb(a, b[1]), LET h == MulMag(a, Tail(b)) IN IF h = <<>> THEN <<>> ELSE <<0>> \o h)

Num(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
Zero == Num(FALSE, <<>>)
Neg(x) == Num(~x.neg, x.m)
Add(x, y) ==
  IF x.neg = y.neg THEN Num(x.neg, AddMag(x.m, y.m))
  ELSE IF CmpMag(x.m, y.m) >= 0 THEN Num(x.neg, SubMag(x.m, y.m)) ELSE Num(y.neg, SubMag(y.m, x.m))
Cmp(x, y) ==
  IF x.neg # y.neg THEN IF x.neg THEN -1 ELSE 1
  ELSE IF x.neg THEN CmpMag(y.m, x.m) ELSE CmpMag(x.m, y.m)

-----------------------------------------------------------------------------
(* Amounts of a commodity with dec decimals: numbers of its smallest unit.       *)
\* The text of an amount: digits, optionally with a decimal point between digits, optionally negative (proper).
\* Sources other than ledgers may also have a plus sign, or the point at either end.
AllDigits(t) == \A k \in 1..Len(t) : IsDigit(Ch(t, k))
AmountParts(s) ==
  LET signed == StartsWith(s, "-") \/ StartsWith(s, "+")
      p == Split(IF signed THEN From(s, 2) ELSE s, ".")
      frac == IF Len(p) = 2 THEN p[2] ELSE "" IN
  IF Len(p) \in {1, 2} /\ AllDigits(p[1]) /\ AllDigits(frac) /\ p[1] \o frac # ""
  THEN [ok |-> TRUE, proper |-> ~StartsWith(s, "+") /\ \A i \in 1..Len(p) : p[i] # "", neg |-> StartsWith(s, "-"), whole |-> p[1], frac |-> frac]
  ELSE [ok |-> FALSE, proper |-> FALSE, neg |-> FALSE, whole |-> "", frac |-> ""]
\* Digits beyond the decimals are dropped.
Amount(s, dec) == LET a == AmountParts(s) IN Num(a.neg, Mag(a.whole \o SubSeq(a.frac \o Repeat("0", dec), 1, dec)))
\* All of its digits together as a 64 bit number: the least that has to be accepted.
Limit == Mag("9223372036854775807")
Fits(s) == LET a == AmountParts(s) IN CmpMag(Mag(a.whole \o a.frac), Limit) <= 0
\* q is num/den in units, cut towards zero.
IsQuotient(q, neg, num, den, dec) ==
  LET n == Mag(num \o Repeat("0", dec)) d == Mag(den) IN
  /\ CmpMag(MulMag(q.m, d), n) <= 0 /\ CmpMag(n, MulMag(AddMag(q.m, <<1>>), d)) < 0
  /\ q.neg = (neg /\ q.m # <<>>)
\* x of dec decimals times y of ydec decimals, in the smallest unit of x, cut towards zero.
CutDigits(m, k) == LET t == DigitsOf(m) IN IF Len(t) <= k THEN <<>> ELSE Mag(SubSeq(t, 1, Len(t) - k))
Times(x, y, ydec) == Num(x.neg # y.neg, CutDigits(MulMag(x.m, y.m), ydec))
Printed(x, dec) ==
  LET t == DigitsOf(x.m)
      p == IF dec > 0 THEN PadZero(t, dec + 1) ELSE t
  IN (IF x.neg THEN "-" ELSE "") \o (IF dec > 0 THEN SubSeq(p, 1, Len(p) - dec) \o "." \o From(p, Len(p) - dec + 1) ELSE p)
Total(xs) == FoldLeft(LAMBDA a, x : Add(a, x), Zero, xs)
=============================================================================
