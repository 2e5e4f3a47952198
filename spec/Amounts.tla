-------------------------------- MODULE Amounts --------------------------------
(* Registers that hold amounts, and what can be done with amounts.               *)
EXTENDS BigDec
VARIABLES reg,     \* [register -> number], in units of its commodity
          dec      \* [register -> decimals of its commodity]
avars == <<reg, dec>>
AInit == reg = <<>> /\ dec = <<>>
Set(r, d, x) == /\ reg' = [k \in DOMAIN reg \cup {r} |-> IF k = r THEN x ELSE reg[k]]
                /\ dec' = [k \in DOMAIN dec \cup {r} |-> IF k = r THEN d ELSE dec[k]]
Read(r, d, s) == Set(r, d, Amount(s, d))
ZeroIt(r, d) == Set(r, d, Zero)
CopyIt(r, s) == Set(r, dec[s], reg[s])
Negate(r, s) == Set(r, dec[s], Neg(reg[s]))
AddIn(r, s) == dec[r] = dec[s] /\ Set(r, dec[r], Add(reg[r], reg[s]))
Multiply(r, s, t) == Set(r, dec[s], Times(reg[s], reg[t], dec[t]))
ComparedMag(r, s) == CmpMag(reg[r].m, reg[s].m)
Compared(r, s) == Cmp(reg[r], reg[s])
Shown == [r \in DOMAIN reg |-> Printed(reg[r], dec[r])]
=============================================================================
