-------------------------------- MODULE MC_Ofx --------------------------------
(* All imports of two statements with up to MaxTxs transactions in all, over        *)
(* ledgers with up to one transaction that may be one of them.                      *)
EXTENDS OfxImport, Json
CONSTANT MaxTxs

VARIABLES stmts, phase
vars == <<ivars, stmts, phase>>
Dates == {"20190105", "20190106"}
Amounts == {"-1.00", "2"}
MCNames == {"F", "G", "Unbalanced", "Root"}
Lit(t) == [k |-> "lit", t |-> t, neg |-> FALSE, min |-> 1, max |-> 1, n |-> 0]
RuleLines == <<[k |-> "acct", name |-> "1", acct |-> "F"],
               [k |-> "rule", drop |-> FALSE, acct |-> "G", any |-> FALSE, rex |-> [fold |-> FALSE, groups |-> 0, alts |-> <<<<Lit("g")>>>>]]>>
Stmt(kind) == [kind |-> kind, acct |-> "1", list |-> TRUE, txs |-> <<>>, bal |-> "5.00"]
Old(a, to) == [date |-> 20190105, code |-> "", posts |->
                 IF a.neg THEN <<[acct |-> to, com |-> "CAD", amt |-> Neg(a)], [acct |-> "F", com |-> "CAD", amt |-> a]>>
                 ELSE <<[acct |-> "F", com |-> "CAD", amt |-> a], [acct |-> to, com |-> "CAD", amt |-> Neg(a)]>>]
Ledgers == {<<>>} \cup {<<Old(Amount(a, 2), to)>> : a \in Amounts, to \in {"G", "Unbalanced"}}
Init ==
  /\ accts = <<[name |-> "F", com |-> "", ofx |-> ""], [name |-> "G", com |-> "", ofx |-> ""]>>
  /\ coms = <<[id |-> "CAD", sym |-> "", dec |-> 2]>>
  /\ rules = ReadRules(MCNames, RuleLines)
  /\ ledger \in Ledgers
  /\ stmts \in {<<Stmt("bank"), Stmt(k)>> : k \in {"bank", "card"}} /\ phase = "fill"
Count == Len(stmts[1].txs) + Len(stmts[2].txs)
Next ==
  \/ /\ phase = "fill" /\ Count < MaxTxs
     /\ \E i \in (IF stmts[2].txs = <<>> THEN {1, 2} ELSE {2}) : \E d \in Dates, a \in Amounts, n \in {"g", "u"} :
          stmts' = [stmts EXCEPT ![i].txs = Append(@, [date |-> d, amount |-> a, name |-> n, memo |-> ""])]
     /\ UNCHANGED <<ivars, phase>>
  \/ /\ phase = "fill" /\ phase' = "imported" /\ Adopt(Outcome(<<stmts>>, FALSE).kept) /\ UNCHANGED <<accts, coms, rules, stmts>>
MCSpec == Init /\ [][Next]_vars

Filling == phase = "fill"
All == AllEntries(<<stmts>>)
Res == Outcome(<<stmts>>, FALSE)
NothingLost == Filling => LET r == Res all == All IN
  /\ Len(r.kept) + Len(r.dropped) = Len(all)
  /\ \A i \in 1..Len(all) : (\E k \in 1..Len(r.kept) : Essence(r.kept[k]) = Essence(all[i])) \/ (\E k \in 1..Len(ledger) : ledger[k] = Essence(all[i]))
NoRepeats == Filling => LET r == Res IN
  /\ \A i, j \in 1..Len(r.kept) : Essence(r.kept[i]) = Essence(r.kept[j]) => i = j
  /\ \A i \in 1..Len(r.kept) : \A k \in 1..Len(ledger) : ledger[k] # Essence(r.kept[i])
\* Importing once more adds nothing.
Again == phase = "imported" => Res.kept = <<>>
BalanceKept == Filling => LET r == Res all == All IN
  \A i \in 1..Len(all) : Asserts(all[i]) => \A k \in 1..Len(r.kept) : Essence(r.kept[k]) = Essence(all[i]) => Asserts(r.kept[k])
Sorted == Filling => LET r == Res IN \A i \in 1..(Len(r.kept) - 1) : r.kept[i].date <= r.kept[i + 1].date
SumZero == Filling => \A i \in 1..Len(All) : Total([k \in 1..2 |-> All[i].posts[k].amt]) = Zero
ShownOld(t) == [date |-> t.date, code |-> t.code, posts |-> [i \in 1..2 |-> [acct |-> t.posts[i].acct, com |-> "CAD", amount |-> Printed(t.posts[i].amt, 2)]]]
Emitted == (Filling /\ Count = MaxTxs) => PrintT("SCN " \o ToJson([files |-> <<stmts>>, ledger |-> [i \in 1..Len(ledger) |-> ShownOld(ledger[i])]]))
=============================================================================
