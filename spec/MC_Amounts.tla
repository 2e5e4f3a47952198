------------------------------- MODULE MC_Amounts -------------------------------
(* The arithmetic of BigDec against TLC's own on all numbers that are small        *)
(* enough, with limbs of LimbDigits digits.                                       *)
EXTENDS Amounts, TLC
CONSTANTS Biggest, MaxDec
VARIABLES a, b
mvars == <<avars, a, b>>
Int2Num(i) == Num(i < 0, Mag(ToString(Abs(i))))
RECURSIVE ValM(_, _)
ValM(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + Base * ValM(m, i + 1)
Num2Int(x) == ValM(x.m, 1) * (IF x.neg THEN -1 ELSE 1)
MCInit == AInit /\ a \in (-Biggest)..Biggest /\ b = -Biggest
MCNext == b < Biggest /\ b' = b + 1 /\ UNCHANGED <<avars, a>>
MCSpec == MCInit /\ [][MCNext]_mvars
X == Int2Num(a)
Y == Int2Num(b)
InverseOk == Num2Int(X) = a /\ DigitsOf(X.m) = ToString(Abs(a))
AddOk == Num2Int(Add(X, Y)) = a + b /\ Add(X, Y) = Int2Num(a + b)
NegOk == Num2Int(Neg(X)) = -a /\ Add(X, Neg(X)) = Zero
CmpOk == Cmp(X, Y) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
MulOk == MulMag(X.m, Y.m) = Int2Num(Abs(a * b)).m
TimesOk == \A e \in 0..MaxDec : Num2Int(Times(X, Y, e)) = Quo(a * b, Pow10(e))
\* Printing and reading, and reading with digits dropped.
PrintOk == \A d \in 0..MaxDec : Amount(Printed(X, d), d) = X /\ Fits(Printed(X, d))
DropOk == \A d \in 0..MaxDec : \A e \in 0..MaxDec : Num2Int(Amount(Printed(X, d), e)) = (IF e >= d THEN a * Pow10(e - d) ELSE Quo(a, Pow10(d - e)))
QuotOk == b > 0 => \A d \in 0..MaxDec :
  /\ IsQuotient(Int2Num(Quo(a * Pow10(d), b)), a < 0, ToString(Abs(a)), ToString(b), d)
  /\ ~IsQuotient(Int2Num(Quo(a * Pow10(d), b) + 1), a < 0, ToString(Abs(a)), ToString(b), d)
  /\ ~IsQuotient(Int2Num(Quo(a * Pow10(d), b) - 1), a < 0, ToString(Abs(a)), ToString(b), d)
=============================================================================
