-------------------------------- MODULE Rules --------------------------------
(* Import rules: the lines of a rules file are read one by one into sections of   *)
(* rules, which then decide about descriptions.                                   *)
(*   lines: [k |-> "group", name]             start of a group                     *)
(*          [k |-> "acct", name, acct]        start of the rules of account id name *)
(*          [k |-> "rule", drop, acct, any, rex, notes]  (any: no expression)       *)
(*          [k |-> "ref", name]               all the rules of a group             *)
(*          [k |-> "note", t]                 a note of the preceding rule          *)
EXTENDS Rex, Names

\* One line more; names are the accounts.
ReadLine(names, secs, line) ==
  LET n == Len(secs) IN
  IF line.k = "group" THEN Append(secs, [k |-> "group", name |-> line.name, acct |-> "", items |-> <<>>])
  ELSE IF line.k = "acct" THEN Append(secs, [k |-> "acct", name |-> line.name, acct |-> Denotes(names, line.acct), items |-> <<>>])
  ELSE IF line.k = "ref" THEN [secs EXCEPT ![n].items = Append(@, [k |-> "ref", name |-> line.name])]
  ELSE IF line.k = "rule"
       THEN [secs EXCEPT ![n].items = Append(@, [k |-> "rule", drop |-> line.drop, acct |-> IF line.drop THEN "" ELSE Denotes(names, line.acct),
                                                 any |-> line.any, rex |-> line.rex, notes |-> <<>>])]
  ELSE \* a note
    LET items == secs[n].items m == Len(items) IN
    IF m > 0 /\ items[m].k = "rule" THEN [secs EXCEPT ![n].items[m].notes = Append(@, line.t)] ELSE secs
ReadRules(names, lines) == FoldLeft(LAMBDA s, line : ReadLine(names, s, line), <<>>, lines)

GroupNamed(secs, name) == secs[CHOOSE i \in 1..Len(secs) : secs[i].k = "group" /\ secs[i].name = name]
RECURSIVE Expanded(_, _)
\* The rules that references stand for, in their place.
Expanded(secs, items) ==
  IF items = <<>> THEN <<>>
  ELSE (IF items[1].k = "ref" THEN Expanded(secs, GroupNamed(secs, items[1].name).items) ELSE <<items[1]>>) \o Expanded(secs, Tail(items))
HasId(secs, id) == \E i \in 1..Len(secs) : secs[i].k = "acct" /\ secs[i].name = id
SectionOf(secs, id) == secs[CHOOSE i \in 1..Len(secs) : secs[i].k = "acct" /\ secs[i].name = id]
RulesOf(secs, id) == IF HasId(secs, id) THEN Expanded(secs, SectionOf(secs, id).items) ELSE <<>>

RuleMatches(rule, text) == rule.any \/ Found(rule.rex, text)
Decision(rules, text) ==
  LET M == {i \in 1..Len(rules) : RuleMatches(rules[i], text)} IN
  IF M = {} THEN [drop |-> FALSE, acct |-> "Unbalanced", notes |-> <<>>]
  ELSE LET r == rules[CHOOSE i \in M : \A j \in M : i <= j] IN
       [drop |-> r.drop, acct |-> IF r.drop THEN "" ELSE r.acct, notes |-> r.notes]

\* The sections as lines again: groups in order, then accounts by their name.
DumpItem(it) ==
  IF it.k = "ref" THEN <<it>>
  ELSE <<[k |-> "rule", drop |-> it.drop, acct |-> it.acct, any |-> it.any, rex |-> it.rex]>> \o [i \in 1..Len(it.notes) |-> [k |-> "note", t |-> it.notes[i]]]
DumpSec(s) ==
  <<IF s.k = "group" THEN [k |-> "group", name |-> s.name] ELSE [k |-> "acct", name |-> s.name, acct |-> s.acct]>>
     \o FlattenSeqs([i \in 1..Len(s.items) |-> DumpItem(s.items[i])])
Dump(secs) ==
  LET groups == SelectSeq(secs, LAMBDA s : s.k = "group")
      accts == SetToSortSeq({s \in {secs[i] : i \in 1..Len(secs)} : s.k = "acct"}, LAMBDA a, b : StrLt(a.acct, b.acct) \/ (a.acct = b.acct /\ StrLt(a.name, b.name)))
  IN FlattenSeqs([i \in 1..Len(groups) |-> DumpSec(groups[i])] \o [i \in 1..Len(accts) |-> DumpSec(accts[i])])
\* Two sets of rules that decide every description in the same way, because they have the same rules.
SameRules(a, b) ==
  LET Ids(s) == {s[i].name : i \in {k \in 1..Len(s) : s[k].k = "acct"}} IN
  Ids(a) = Ids(b) /\ \A id \in Ids(a) : SectionOf(a, id).acct = SectionOf(b, id).acct /\ RulesOf(a, id) = RulesOf(b, id)
=============================================================================
