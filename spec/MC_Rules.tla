------------------------------- MODULE MC_Rules -------------------------------
(* All rules files of up to MaxLines lines over a small alphabet; those of EmitAt   *)
(* lines are printed as scenarios.                                                  *)
EXTENDS Rules, Json
CONSTANTS MaxLines, EmitAt

VARIABLES lines, secs
vars == <<lines, secs>>
MCNames == {"P", "Q", "S", "T", "Unbalanced", "Root"}
Texts == {"a", "b", "c", "ba"}
Lit(t) == [k |-> "lit", t |-> t, neg |-> FALSE, min |-> 1, max |-> 1, n |-> 0]
Rx(ts) == [fold |-> FALSE, groups |-> 0, alts |-> [i \in 1..Len(ts) |-> <<Lit(ts[i])>>]]
Rule(drop, acct, any, ts) == [k |-> "rule", drop |-> drop, acct |-> acct, any |-> any, rex |-> Rx(ts)]
Headers == <<[k |-> "group", name |-> "g"], [k |-> "group", name |-> "h"], [k |-> "acct", name |-> "1", acct |-> "P"], [k |-> "acct", name |-> "2", acct |-> "Q"]>>
Bodies == {Rule(FALSE, "S", FALSE, <<"a">>), Rule(FALSE, "T", FALSE, <<"b">>), Rule(TRUE, "", FALSE, <<"a", "b">>), Rule(FALSE, "T", TRUE, <<>>), [k |-> "note", t |-> "n"]}
Possible ==
  LET New == {Headers[i] : i \in {j \in 1..Len(Headers) : ~\E k \in 1..Len(secs) : secs[k].name = Headers[j].name}}
      Groups == {secs[k].name : k \in {j \in 1..(Len(secs) - 1) : secs[j].k = "group"}}
  IN New \cup IF secs = <<>> THEN {} ELSE Bodies \cup {[k |-> "ref", name |-> g] : g \in Groups}
Init == lines = <<>> /\ secs = <<>>
Next == Len(lines) < MaxLines /\ \E x \in Possible : lines' = Append(lines, x) /\ secs' = ReadLine(MCNames, secs, x)
MCSpec == Init /\ [][Next]_vars

\* The decision by going through the rules and references as they stand.
RECURSIVE First(_, _)
First(items, text) ==
  IF items = <<>> THEN <<>>
  ELSE LET h == IF items[1].k = "ref" THEN First(GroupNamed(secs, items[1].name).items, text)
                ELSE IF RuleMatches(items[1], text) THEN <<items[1]>> ELSE <<>>
       IN IF h # <<>> THEN h ELSE First(Tail(items), text)
Ids == {secs[i].name : i \in {k \in 1..Len(secs) : secs[k].k = "acct"}}
Recursive == \A id \in Ids : \A t \in Texts :
  LET f == First(SectionOf(secs, id).items, t) d == Decision(RulesOf(secs, id), t) IN
  IF f = <<>> THEN d = [drop |-> FALSE, acct |-> "Unbalanced", notes |-> <<>>]
  ELSE d.drop = f[1].drop /\ d.acct = f[1].acct /\ d.notes = f[1].notes
\* What is dumped reads back as the same rules, and is dumped the same again.
DumpSame == \E back \in {ReadRules(MCNames, Dump(secs))} : SameRules(back, secs) /\ Dump(back) = Dump(secs)
\* A further line changes only the section it is in.
Local == [][\A id \in Ids : id # secs[Len(secs)].name => RulesOf(secs', id) = RulesOf(secs, id)]_vars
Emitted == Len(lines) = EmitAt => PrintT("SCN " \o ToJson([lines |-> lines]))
=============================================================================
