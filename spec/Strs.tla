-------------------------------- MODULE Strs --------------------------------
(* Text as the programs see it: character access, order, search, numerals.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
HasCh(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
From(s, i) == SubSeq(s, i, Len(s))

\* Printable ASCII in code order; the position is the rank used for ordering.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == {Ch(Ascii, i) : i \in 1..Len(Ascii)}
Rank == [c \in AsciiChars |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
Beyond == "£éñ日本"                 \* other characters the scenarios use, in code order
RankOf(c) == IF c \in AsciiChars THEN Rank[c] ELSE IF c = "\t" THEN 0
             ELSE 1000 + (IF HasCh(Beyond, c) THEN CHOOSE i \in 1..Len(Beyond) : Ch(Beyond, i) = c ELSE 0)

UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowerMap == [c \in AsciiChars |->
               IF \E i \in 1..26 : Ch(UpperCase, i) = c
               THEN Ch(LowerCase, CHOOSE i \in 1..26 : Ch(UpperCase, i) = c) ELSE c]
LowerCh(c) == IF c \in AsciiChars THEN LowerMap[c] ELSE c
Lower(s) == FoldLeft(LAMBDA acc, c : acc \o LowerCh(c), "", Chars(s))

Digits == "0123456789"
DigitVal == [c \in {Ch(Digits, i) : i \in 1..10} |-> (CHOOSE i \in 1..10 : Ch(Digits, i) = c) - 1]
IsDigit(c) == c \in DOMAIN DigitVal
Letters == {Ch(UpperCase, i) : i \in 1..26} \cup {Ch(LowerCase, i) : i \in 1..26}
WordChars == Letters \cup DOMAIN DigitVal \cup {"_"}
IsBlank(c) == c = " " \/ c = "\t"

\* Byte order of two texts.
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == RankOf(Ch(a, i)) y == RankOf(Ch(b, i)) IN
       IF x # y THEN x < y ELSE LtFrom(a, b, i + 1)
StrLt(a, b) == LtFrom(a, b, 1)

SortStrings(S) == SetToSortSeq(S, StrLt)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
ContainsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
HasText(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : ContainsAt(s, p, i)
TrimPrefix(s, p) == IF StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE s

RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ IsBlank(Ch(s, 1)) THEN TrimL(From(s, 2)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ IsBlank(Ch(s, Len(s))) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

\* Collapse runs of blanks to one space and trim.
Squeeze(s) ==
  LET f == FoldLeft(LAMBDA acc, c :
             IF IsBlank(c) THEN [acc EXCEPT !.gap = TRUE]
             ELSE [t |-> acc.t \o (IF acc.gap /\ acc.t # "" THEN " " ELSE "") \o c, gap |-> FALSE],
             [t |-> "", gap |-> FALSE], Chars(s))
  IN f.t

RECURSIVE SplitAcc(_, _, _, _)
SplitAcc(s, sep, cur, out) ==
  IF s = "" THEN Append(out, cur)
  ELSE IF Ch(s, 1) = sep THEN SplitAcc(From(s, 2), sep, "", Append(out, cur))
  ELSE SplitAcc(From(s, 2), sep, cur \o Ch(s, 1), out)
Split(s, sep) == SplitAcc(s, sep, "", <<>>)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) ==
  IF i > Len(ss) THEN ""
  ELSE IF i = Len(ss) THEN ss[i]
  ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE s \o Repeat(s, n - 1)
PadZero(s, n) == Repeat("0", n - Len(s)) \o s

RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
\* Division dropping the fraction (towards zero), as opposed to TLA+'s \div (floor).
Quo(a, b) == IF (a < 0) = (b < 0) \/ a = 0 THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

RECURSIVE ValOf(_)
ValOf(s) == IF s = "" THEN 0 ELSE 10 * ValOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]

\* n minor units of a commodity with dec decimals as text, e.g. -5 with 2 is "-0.05".
AmtText(n, dec) ==
  LET m == ToString(Abs(n))
      p == IF dec > 0 THEN PadZero(m, dec + 1) ELSE m
      t == IF dec > 0 THEN SubSeq(p, 1, Len(p) - dec) \o "." \o From(p, Len(p) - dec + 1) ELSE p
  IN (IF n < 0 THEN "-" ELSE "") \o t

(* Regular expressions the scenarios use, as alternatives of possibly        *)
(* anchored literals: [fold |-> TRUE, alts |-> <<[s, e, t], ...>>]             *)
AltMatches(alt, text) ==
  IF alt.s /\ alt.e THEN text = alt.t
  ELSE IF alt.s THEN StartsWith(text, alt.t)
  ELSE IF alt.e THEN EndsWith(text, alt.t)
  ELSE HasText(text, alt.t)
RexMatches(alts, fold, text) ==
  LET tx == IF fold THEN Lower(text) ELSE text IN
  \E i \in 1..Len(alts) :
     AltMatches(IF fold THEN [alts[i] EXCEPT !.t = Lower(@)] ELSE alts[i], tx)

\* Stable sort of a sequence by an integer key.
StableBy(s, Key(_)) ==
  LET idx == SetToSortSeq(1..Len(s), LAMBDA i, j : Key(s[i]) < Key(s[j]) \/ (Key(s[i]) = Key(s[j]) /\ i < j))
  IN [k \in 1..Len(s) |-> s[idx[k]]]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlattenSeqs(Tail(ss))
=============================================================================
