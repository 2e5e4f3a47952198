------------------------------ MODULE Trace_Amounts ------------------------------
(* Checks traces of the real amounts: of coin.Amount driven directly, and as they   *)
(* come through the programs.                                                     *)
EXTENDS Amounts, TraceBase

VARIABLE l
tvars == <<avars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == AInit /\ l = 1
Begin == Is("begin") /\ reg' = <<>> /\ dec' = <<>>
\* Every register, in each of the ways an amount is printed, after the operation.
Show == \A i \in DOMAIN Ev.shown : Verdict(l, "amount shown", Shown'[Ev.shown[i].r], Ev.shown[i].text)
TRead ==
  /\ Is("read")
  /\ LET p == AmountParts(Ev.text) IN
     /\ Require(l, "well formed amounts that can be represented are read, others are not", IF ~p.ok THEN ~Ev.ok ELSE (p.proper /\ Fits(Ev.text)) => Ev.ok, [text |-> Ev.text, ok |-> Ev.ok])
     /\ IF Ev.ok /\ p.ok THEN Read(Ev.r, Ev.dec, Ev.text) ELSE UNCHANGED avars
  /\ Show
TFrac ==
  /\ Is("frac")
  /\ \E q \in {Amount(Ev.got, Ev.dec)} :
     /\ Verdict(l, "decimals of the quotient", Printed(q, Ev.dec), Ev.got)
     /\ Require(l, "quotient cut towards zero", IsQuotient(q, Ev.neg, Ev.num, Ev.den, Ev.dec), [num |-> Ev.num, den |-> Ev.den, dec |-> Ev.dec, got |-> Ev.got])
     /\ Set(Ev.r, Ev.dec, q)
  /\ Show
TZero == Is("zero") /\ ZeroIt(Ev.r, Ev.dec) /\ Show
TCopy == Is("copy") /\ CopyIt(Ev.r, Ev.s) /\ Show
TNeg == Is("neg") /\ Negate(Ev.r, Ev.s) /\ Show
TAdd == Is("add") /\ AddIn(Ev.r, Ev.s) /\ Show
TTimes == Is("times") /\ Multiply(Ev.r, Ev.s, Ev.t) /\ Show
TIsZero == Is("iszero") /\ Verdict(l, "amount is zero", IF reg[Ev.r] = Zero THEN 1 ELSE 0, Ev.got) /\ UNCHANGED avars /\ Show
TMag == Is("mag") /\ Verdict(l, "comparison of magnitudes", ComparedMag(Ev.r, Ev.s), Ev.got) /\ UNCHANGED avars /\ Show
TCmp == Is("cmp") /\ Verdict(l, "comparison", Compared(Ev.r, Ev.s), Ev.got) /\ UNCHANGED avars /\ Show

\* Through the programs: an amount given as text and its printed form.
TThrough ==
  /\ Is("through")
  /\ Verdict(l, Ev.what, Printed(IF Ev.negated THEN Neg(Amount(Ev.text, Ev.dec)) ELSE Amount(Ev.text, Ev.dec), Ev.dec), Ev.got)
  /\ UNCHANGED avars
\* A sum of such amounts.
TSum ==
  /\ Is("sum")
  /\ LET s == Total([i \in DOMAIN Ev.texts |-> Amount(Ev.texts[i], Ev.dec)]) IN
     Verdict(l, Ev.what, Printed(IF Ev.negated THEN Neg(s) ELSE s, Ev.dec), Ev.got)
  /\ UNCHANGED avars
\* An amount converted with a price.
TConverted ==
  /\ Is("converted")
  /\ Verdict(l, Ev.what, Printed(Times(Amount(Ev.price, Ev.pdec), Amount(Ev.text, Ev.dec), Ev.dec), Ev.pdec), Ev.got)
  /\ UNCHANGED avars
\* A ledger of transactions (each a sequence of amount texts) is accepted exactly if all add up to zero.
TAccepted ==
  /\ Is("accepted")
  /\ LET fits == \A i \in DOMAIN Ev.txns : \A k \in DOMAIN Ev.txns[i] : Fits(Ev.txns[i][k])
         ok == \A i \in DOMAIN Ev.txns : Total([k \in DOMAIN Ev.txns[i] |-> Amount(Ev.txns[i][k], Ev.dec)]) = Zero
     IN Require(l, "transactions are accepted exactly if they add up to zero", IF fits THEN Ev.ok = ok ELSE (Ev.ok => ok), Ev)
  /\ UNCHANGED avars
TraceNext == Begin \/ TRead \/ TFrac \/ TZero \/ TCopy \/ TNeg \/ TAdd \/ TTimes \/ TIsZero \/ TMag \/ TCmp \/ TConverted \/ TThrough \/ TSum \/ TAccepted
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
