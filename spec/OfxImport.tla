------------------------------ MODULE OfxImport ------------------------------
(* ofx2coin: statements become transactions, less those there are already.        *)
(*   statement: [kind |-> "bank"/"card", acct (id), list |-> TRUE if it has one,    *)
(*               txs |-> <<[date, amount, name, memo], ...>>, bal |-> text]         *)
EXTENDS Imports

\* Amounts may have a comma for the point.
Pointed(t) == FoldLeft(LAMBDA a, c : a \o IF c = "," THEN "." ELSE c, "", Chars(t))
\* The calendar date written, in whatever time zone.
DateOf(t) == ValOf(SubSeq(t, 1, 8))
DescOf(kind, t) == IF kind = "bank" THEN Squeeze(Trim(t.name) \o Trim(t.memo)) ELSE Trim(t.name)

\* The i-th transaction of a statement: none if a rule drops it.
Entry(s, i) ==
  LET t == s.txs[i]
      from == AccountWithId(s.acct)
      com == ComOf(from)
      desc == DescOf(s.kind, t)
      d == Decision(RulesOf(rules, s.acct), desc)
      amt == Amount(Pointed(t.amount), DecOf(com))
      bal == IF s.kind = "bank" /\ i = Len(s.txs) THEN <<Amount(Pointed(s.bal), DecOf(com))>> ELSE <<>>
  IN IF d.drop THEN <<>>
     ELSE <<[date |-> DateOf(t.date), desc |-> desc, notes |-> d.notes, code |-> "",
             posts |-> TwoPostings([Posting(from, com, amt) EXCEPT !.bal = bal], Posting(d.acct, com, Neg(amt)))]>>
EntriesOf(s) == IF s.list THEN FlattenSeqs([i \in 1..Len(s.txs) |-> Entry(s, i)]) ELSE <<>>
\* Bank statements of a file come before those of cards.
FileEntries(ss) ==
  LET b == SelectSeq(ss, LAMBDA s : s.kind = "bank") c == SelectSeq(ss, LAMBDA s : s.kind = "card")
      all == b \o c IN FlattenSeqs([i \in 1..Len(all) |-> EntriesOf(all[i])])
\* An account whose postings cannot all be in its commodity (there are no prices here) has no balance: the ledger does not load.
Loads(ts) == \A i \in 1..Len(ts) : \A k \in 1..Len(ts[i].posts) : ts[i].posts[k].com = ComOf(ts[i].posts[k].acct)
CanImport(files) == Loads(ledger) /\ \A f \in 1..Len(files) : \A i \in 1..Len(files[f]) : files[f][i].list => AccountWithId(files[f][i].acct) # ""
AllEntries(files) == ByDate(FlattenSeqs([f \in 1..Len(files) |-> FileEntries(files[f])]))

Essence(t) == [date |-> t.date, code |-> t.code, posts |-> [i \in 1..Len(t.posts) |-> [acct |-> t.posts[i].acct, com |-> t.posts[i].com, amt |-> t.posts[i].amt]]]
\* The kept transaction takes over the asserted balance it lacks.
Merge(t, u) == [t EXCEPT !.posts = [i \in 1..Len(@) |-> IF @[i].bal = <<>> THEN [@[i] EXCEPT !.bal = u.posts[i].bal] ELSE @[i]]]
\* One transaction more, dropped if there is an equal one in the ledger or among those kept.
Keep(acc, t) ==
  LET I == {i \in 1..Len(acc.kept) : Essence(acc.kept[i]) = Essence(t)} IN
  IF \E i \in 1..Len(ledger) : ledger[i] = Essence(t) THEN [acc EXCEPT !.dropped = Append(@, t)]
  ELSE IF I # {} THEN LET k == CHOOSE i \in I : \A j \in I : i <= j IN
                      [kept |-> [acc.kept EXCEPT ![k] = Merge(@, t)], dropped |-> Append(acc.dropped, t)]
  ELSE [acc EXCEPT !.kept = Append(@, t)]
Deduped(ts) == FoldLeft(Keep, [kept |-> <<>>, dropped |-> <<>>], ts)
Outcome(files, keepdupes) == IF keepdupes THEN [kept |-> AllEntries(files), dropped |-> <<>>] ELSE Deduped(AllEntries(files))

\* What was imported becomes part of the ledger.
Adopt(ts) == ledger' = ledger \o [i \in 1..Len(ts) |-> Essence(ts[i])]
=============================================================================
