------------------------------- MODULE Imports -------------------------------
(* What the import programs have in common: the accounts and commodities there    *)
(* are, the rules, the ledger, and the transactions made.                          *)
EXTENDS Rules, BigDec

VARIABLES
  accts,     \* sequence of [name, com, ofx]: declared accounts with their commodity ("" the default) and ofx id
  coms,      \* sequence of [id, sym, dec]; the first one is the default
  rules,     \* sections of the rules file
  ledger     \* transactions there are: sequence of [date, code, posts]
ivars == <<accts, coms, rules, ledger>>

AccountNames == {accts[i].name : i \in 1..Len(accts)} \cup {"Unbalanced", "Root"}
Default == coms[1].id
ComOf(name) ==
  LET I == {i \in 1..Len(accts) : accts[i].name = name} IN
  IF I = {} THEN Default ELSE LET a == accts[CHOOSE i \in I : TRUE] IN IF a.com = "" THEN Default ELSE a.com
DecOf(com) == coms[CHOOSE i \in 1..Len(coms) : coms[i].id = com].dec
\* The commodity with an id, or else with a symbol; "" if there is none.
ComNamed(t) ==
  LET I == {i \in 1..Len(coms) : coms[i].id = t} S == {i \in 1..Len(coms) : coms[i].sym = t} IN
  IF I # {} THEN t ELSE IF S # {} /\ t # "" THEN coms[CHOOSE i \in S : TRUE].id ELSE ""

\* The account with an id: that of the rules, or one with the id of its own; "" if there is none.
AccountWithId(id) ==
  IF HasId(rules, id) THEN SectionOf(rules, id).acct
  ELSE LET I == {i \in 1..Len(accts) : id # "" /\ accts[i].ofx = id} IN
       IF I = {} THEN "" ELSE accts[CHOOSE i \in I : \A j \in I : ~StrLt(accts[j].name, accts[i].name)].name

Posting(acct, com, amt) == [acct |-> acct, com |-> com, amt |-> amt, bal |-> <<>>]
\* A transaction of two postings, the one that takes something away after the other.
TwoPostings(from, to) == IF from.amt.neg THEN <<to, from>> ELSE <<from, to>>
Asserts(t) == \E i \in 1..Len(t.posts) : t.posts[i].bal # <<>>
ByDate(ts) == StableBy(ts, LAMBDA t : 2 * t.date + IF Asserts(t) THEN 1 ELSE 0)

-----------------------------------------------------------------------------
\* How transactions look when printed: the texts that start and notes may take, and the postings.
ShownAmount(x, com) == Printed(x, DecOf(com)) \o " " \o com
DateText(d) == PadZero(ToString(d \div 10000), 4) \o "/" \o PadZero(ToString((d \div 100) % 100), 2) \o "/" \o PadZero(ToString(d % 100), 2)
ShownPosts(t) ==
  [i \in 1..Len(t.posts) |->
     [acct |-> t.posts[i].acct, amount |-> ShownAmount(t.posts[i].amt, t.posts[i].com),
      balance |-> IF t.posts[i].bal = <<>> THEN "" ELSE ShownAmount(t.posts[i].bal[1], t.posts[i].com)]]
Heads(t) ==
  LET start == TrimR(DateText(t.date) \o " " \o t.desc) IN
  {<<start>> \o t.notes} \cup IF t.notes = <<>> THEN {} ELSE {<<start \o " ; " \o t.notes[1]>> \o Tail(t.notes)}
ShownAs(t, o) == o.head \in Heads(t) /\ o.posts = ShownPosts(t)
SameShown(ts, os) == Len(ts) = Len(os) /\ \A i \in 1..Len(ts) : ShownAs(ts[i], os[i])
Expectation(ts) == [i \in 1..Len(ts) |-> [head |-> <<DateText(ts[i].date) \o " " \o ts[i].desc>> \o ts[i].notes, posts |-> ShownPosts(ts[i])]]
=============================================================================
