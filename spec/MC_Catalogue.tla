----------------------------- MODULE MC_Catalogue -----------------------------
(* Every small catalogue of accounts, open and closed, in any order.             *)
EXTENDS Reports, Json
CONSTANT MaxAccts
Decls == {[name |-> n, com |-> c, closed |-> x, desc |-> "", loc |-> ""] :
            n \in {"A", "A:B", "A:B:C", "AB", "Z:A"}, c \in {"", "USD"}, x \in {"", "2020/01/02"}}
MCInit ==
  /\ coms = [c \in {"CAD", "USD"} |-> [dec |-> 2, name |-> "", sym |-> "", nomarket |-> FALSE]]
  /\ dflt = "CAD" /\ accts = <<>> /\ prices = <<>> /\ txns = <<>> /\ phase = "open" /\ led = NoLedger
MCNext == Len(accts) < MaxAccts /\ \E a \in Decls : (\A i \in 1..Len(accts) : accts[i].name # a.name) /\ DeclareAccount(a)
MCSpec == MCInit /\ [][MCNext]_lvars
Q(c) == [acct |-> "", c |-> c]
Names(r) == {r.rows[i][1] : i \in 1..Len(r.rows)}
Declared == {accts[i].name : i \in 1..Len(accts)}
\* With -c every account is listed once; without, at least every open one without a closed ancestor.
AllOpenListed ==
  /\ Names(AccountsReport(Q(TRUE))) = Closure(Declared) /\ Len(AccountsReport(Q(TRUE)).rows) = Cardinality(Closure(Declared))
  /\ \A n \in Closure(Declared) :
       (n \in Names(AccountsReport(Q(FALSE)))) <=> ~ \E i \in 1..Len(accts) : accts[i].closed /\ (accts[i].name = n \/ IsUnder(n, accts[i].name))
ClosedHidden == \A i \in 1..Len(accts) : accts[i].closed => accts[i].name \notin Names(AccountsReport(Q(FALSE)))
Sorted == LET r == AccountsReport(Q(TRUE)).rows IN \A i \in 1..(Len(r) - 1) : StrLt(r[i][1], r[i + 1][1])
Emitted == PrintT("SCN " \o ToJson([accts |-> [i \in 1..Len(accts) |-> [name |-> accts[i].name, com |-> accts[i].com, closed |-> accts[i].closedtext]]]))
=============================================================================
