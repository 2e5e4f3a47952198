------------------------------- MODULE Ledger -------------------------------
(* The ledger as a state machine: entries are read one by one, then the whole  *)
(* ledger is resolved, which either rejects it or fixes all amounts, accounts, *)
(* posting orders and balances.  Amounts are integers: minor units of their    *)
(* commodity.                                                                  *)
EXTENDS Names, Dates, Tags

VARIABLES
  coms,      \* [id -> [dec, name, sym, nomarket]] declared commodities
  dflt,      \* id of the default commodity
  accts,     \* declared accounts: sequence of [name, com, closed, desc]
  prices,    \* sequence of [day, com, cur, val]
  txns,      \* sequence of transactions as entered
  phase,     \* "open" | "loaded" | "rejected"
  led        \* the resolved ledger (meaningful when phase = "loaded")

lvars == <<coms, dflt, accts, prices, txns, phase, led>>

NoLedger == [ok |-> FALSE]

LInit ==
  /\ coms = [x \in {} |-> x] /\ dflt = "CAD"
  /\ accts = <<>> /\ prices = <<>> /\ txns = <<>>
  /\ phase = "open" /\ led = NoLedger

-----------------------------------------------------------------------------
(* Prices and conversion.                                                      *)

\* The latest price of each pair: [<<com, cur>> -> value]
LatestPrices(ps) ==
  LET pairs == {<<ps[i].com, ps[i].cur>> : i \in 1..Len(ps)} IN
  [pr \in pairs |->
     LET I == {i \in 1..Len(ps) : <<ps[i].com, ps[i].cur>> = pr}
         i == CHOOSE i \in I : \A j \in I : ps[j].day < ps[i].day \/ (ps[j].day = ps[i].day /\ i <= j)
     IN ps[i].val]
CurrenciesOf(latest, c) == SortStrings({pr[2] : pr \in {x \in DOMAIN latest : x[1] = c}})

\* val is the price of one unit of a commodity with dec decimals.
\* (Splitting q keeps intermediate results within TLC's integers.)
Times(val, q, dec) ==
  LET p == Pow10(dec) a == Abs(q) v == Abs(val)
      m == v * (a \div p) + (v * (a % p)) \div p
  IN IF (q < 0) = (val < 0) THEN m ELSE -m

RECURSIVE ConvVia(_, _, _, _, _, _)
RECURSIVE TryVia(_, _, _, _, _, _, _, _)
\* Converts q of commodity from to commodity to; [ok, q].
ConvVia(cs, latest, q, from, to, seen) ==
  IF from = to THEN [ok |-> TRUE, q |-> q]
  ELSE IF <<from, to>> \in DOMAIN latest
       THEN [ok |-> TRUE, q |-> Times(latest[<<from, to>>], q, cs[from].dec)]
       ELSE TryVia(cs, latest, q, from, to, seen, CurrenciesOf(latest, from), 1)
TryVia(cs, latest, q, from, to, seen, curs, i) ==
  IF i > Len(curs) THEN [ok |-> FALSE, q |-> 0]
  ELSE IF curs[i] \in seen THEN TryVia(cs, latest, q, from, to, seen, curs, i + 1)
  ELSE LET r == ConvVia(cs, latest, Times(latest[<<from, curs[i]>>], q, cs[from].dec), curs[i], to, seen \cup {from})
       IN IF r.ok THEN r ELSE TryVia(cs, latest, q, from, to, seen, curs, i + 1)

\* The results over all chains without repeated commodities (a direct price excludes the others).
RECURSIVE ConvAll(_, _, _, _, _, _)
ConvAll(cs, latest, q, from, to, seen) ==
  IF from = to THEN {q}
  ELSE IF <<from, to>> \in DOMAIN latest THEN {Times(latest[<<from, to>>], q, cs[from].dec)}
  ELSE UNION {ConvAll(cs, latest, Times(latest[pr], q, cs[from].dec), pr[2], to, seen \cup {from}) :
               pr \in {x \in DOMAIN latest : x[1] = from /\ x[2] \notin seen \cup {from}}}

\* A total that may have failed: adds q of commodity c to total t in commodity tc.
AddTo(cs, latest, t, tc, q, c) ==
  IF ~t.ok THEN t
  ELSE LET r == ConvVia(cs, latest, q, c, tc, {}) IN [ok |-> r.ok, q |-> t.q + r.q]
ZeroTotal == [ok |-> TRUE, q |-> 0]

-----------------------------------------------------------------------------
(* Resolving the ledger.                                                       *)

ComOf(com, n) == IF n \in DOMAIN com THEN com[n] ELSE dflt

\* Commodity of every account.  A later declaration of the same name replaces an earlier one.
AccountComs(names) ==
  [n \in names |->
     LET I == {i \in 1..Len(accts) : accts[i].name = n} IN
     IF I = {} THEN dflt
     ELSE LET a == accts[CHOOSE i \in I : \A j \in I : j <= i] IN IF a.com = "" THEN a.dflt ELSE a.com]

\* One transaction: fills in accounts and the left out amount; [ok, posts]
ResolveTxn(cs, latest, names, com, t) ==
  LET n == Len(t.posts)
      acc == [i \in 1..n |-> Denotes(names, t.posts[i].acct)]
      known == \A i \in 1..n :
                 /\ acc[i] # ""
                 /\ t.posts[i].has => t.posts[i].com \in DOMAIN cs
                 /\ t.posts[i].asserted => t.posts[i].balcom \in DOMAIN cs
  IN
  IF ~known THEN [ok |-> FALSE]
  ELSE
  LET cset == {com[acc[i]] : i \in 1..n}
      missing == {i \in 1..n : ~t.posts[i].has}
      full == [i \in 1..n |-> [acct |-> acc[i], q |-> t.posts[i].q, com |-> t.posts[i].com,
                               asserted |-> t.posts[i].asserted, bal |-> t.posts[i].bal,
                               balcom |-> t.posts[i].balcom,
                               notes |-> t.posts[i].notes, tags |-> t.posts[i].tags]]
  IN
  IF Cardinality(cset) > 1 THEN [ok |-> missing = {}, posts |-> full]
  ELSE IF n = 0 THEN [ok |-> TRUE, posts |-> <<>>]
  ELSE IF Cardinality(missing) > 1 THEN [ok |-> FALSE]
  ELSE
  LET c == com[acc[1]]
      tot == FoldLeft(LAMBDA a, i : IF i \in missing THEN a ELSE AddTo(cs, latest, a, c, full[i].q, full[i].com),
                      ZeroTotal, [i \in 1..n |-> i])
  IN
  IF ~tot.ok THEN [ok |-> FALSE]
  ELSE IF missing = {} THEN [ok |-> tot.q = 0, posts |-> full]
  ELSE LET e == CHOOSE i \in missing : TRUE IN
       [ok |-> TRUE, posts |-> [full EXCEPT ![e] = [@ EXCEPT !.q = -tot.q, !.com = c]]]

HasAssertion(t) == \E i \in 1..Len(t.posts) : t.posts[i].asserted
\* Reporting order of transactions: date, then without assertions first, then as read.
TxnKey(t) == 2 * t.day + (IF HasAssertion(t) THEN 1 ELSE 0)

\* Accounts and amounts of all transactions, and their reporting order.
ResolveEntries ==
  LET names == Closure({accts[i].name : i \in 1..Len(accts)})
      latest == LatestPrices(prices)
      comsOk == /\ dflt \in DOMAIN coms
                /\ \A i \in 1..Len(accts) : (IF accts[i].com = "" THEN accts[i].dflt ELSE accts[i].com) \in DOMAIN coms
                /\ \A i \in 1..Len(prices) : prices[i].com \in DOMAIN coms /\ prices[i].cur \in DOMAIN coms
  IN
  IF ~comsOk THEN NoLedger
  ELSE
  LET com == AccountComs(names)
      res == [i \in 1..Len(txns) |-> ResolveTxn(coms, latest, names, com, txns[i])]
  IN
  IF \E i \in 1..Len(txns) : ~res[i].ok THEN NoLedger
  ELSE
  LET full == [i \in 1..Len(txns) |-> [txns[i] EXCEPT !.posts = res[i].posts]]
      order == SetToSortSeq(1..Len(full), LAMBDA i, j : TxnKey(full[i]) < TxnKey(full[j])
                                                  \/ (TxnKey(full[i]) = TxnKey(full[j]) /\ i < j))
  IN [ok |-> TRUE, names |-> names, com |-> com, latest |-> latest, txns |-> full, order |-> order]

\* The postings of every account in order, with their running sums.
RunningSumsOf(E) ==
  LET full == E.txns names == E.names com == E.com latest == E.latest
      byday == SetToSortSeq(1..Len(full), LAMBDA i, j : full[i].day < full[j].day
                                                  \/ (full[i].day = full[j].day /\ i < j))
      \* all postings in date order, then as read: <<transaction, posting>>
      allposts == FlattenSeqs([k \in 1..Len(byday) |->
                     [p \in 1..Len(full[byday[k]].posts) |-> <<byday[k], p>>]])
      posts == [n \in names |-> SelectSeq(allposts, LAMBDA tp : full[tp[1]].posts[tp[2]].acct = n)]
      P(tp) == full[tp[1]].posts[tp[2]]
      \* running sums per account
      run == [n \in names |->
                FoldLeft(LAMBDA acc, tp :
                   LET r == AddTo(coms, latest, acc.t, com[n], P(tp).q, P(tp).com) IN
                   [t |-> r, out |-> Append(acc.out, r.q)],
                   [t |-> ZeroTotal, out |-> <<>>], posts[n])]
  IN
  IF \E n \in names : ~run[n].t.ok THEN NoLedger
  ELSE [ok |-> TRUE, names |-> names, com |-> com, latest |-> latest,
        txns |-> full, order |-> E.order, posts |-> posts,
        run |-> [n \in names |-> run[n].out],
        kids |-> [n \in names |-> ChildrenIn(names, n)]]

Resolve == LET E == ResolveEntries IN IF E.ok THEN RunningSumsOf(E) ELSE NoLedger

Dec(c) == coms[c].dec
Text(q, c) == AmtText(q, Dec(c))
PostOf(L, tp) == L.txns[tp[1]].posts[tp[2]]

\* Warnings about failed assertions, each as one line of text.
Warnings(L) ==
  FlattenSeqs([k \in 1..Cardinality(L.names) |->
    LET n == SetToSeq(L.names)[k]
        bad == SelectSeq([i \in 1..Len(L.posts[n]) |-> i],
                  LAMBDA i : LET p == PostOf(L, L.posts[n][i]) IN p.asserted /\ p.bal # L.run[n][i])
    IN [j \in 1..Len(bad) |->
         LET i == bad[j] tp == L.posts[n][i] p == PostOf(L, tp) IN
         n \o ": " \o DateText(L.txns[tp[1]].day) \o " balance is " \o Text(L.run[n][i], L.com[n])
           \o ", should be " \o Text(p.bal, p.balcom) \o ": " \o L.txns[tp[1]].loc]])

-----------------------------------------------------------------------------
(* Actions: reading entries, then loading.                                     *)

DeclareCommodity(c) ==
  /\ phase = "open"
  /\ coms' = (c.id :> [dec |-> c.dec, name |-> c.name, sym |-> c.sym, nomarket |-> c.nomarket]) @@ coms
  /\ dflt' = IF c.default THEN c.id ELSE dflt
  /\ UNCHANGED <<accts, prices, txns, phase, led>>

DeclareAccount(a) ==
  /\ phase = "open"
  /\ accts' = Append(accts, [name |-> a.name, com |-> a.com, dflt |-> dflt, closed |-> a.closed # "", closedtext |-> a.closed,
                              desc |-> a.desc, loc |-> a.loc])
  /\ UNCHANGED <<coms, dflt, prices, txns, phase, led>>

DeclarePrice(p) ==
  /\ phase = "open"
  /\ prices' = Append(prices, [day |-> p.day, com |-> p.com, cur |-> p.cur, val |-> p.val, loc |-> p.loc])
  /\ UNCHANGED <<coms, dflt, accts, txns, phase, led>>

WithTags(t) ==
  [day |-> t.day, code |-> t.code, desc |-> t.desc, notes |-> t.notes, loc |-> t.loc, tags |-> TagsOf(t.notes),
   posts |-> [i \in 1..Len(t.posts) |->
      [acct |-> t.posts[i].acct, has |-> t.posts[i].has, q |-> t.posts[i].q, com |-> t.posts[i].com,
       asserted |-> t.posts[i].asserted, bal |-> t.posts[i].bal, balcom |-> t.posts[i].balcom,
       notes |-> t.posts[i].notes, tags |-> TagsOf(t.posts[i].notes)]]]

Enter(t) ==
  /\ phase = "open"
  /\ txns' = Append(txns, WithTags(t))
  /\ UNCHANGED <<coms, dflt, accts, prices, phase, led>>

Load ==
  /\ phase = "open"
  /\ LET r == Resolve IN
     /\ led' = r
     /\ phase' = IF r.ok THEN "loaded" ELSE "rejected"
  /\ UNCHANGED <<coms, dflt, accts, prices, txns>>

\* Resolving the transactions of a file without their running balances.
LoadFile ==
  /\ phase = "open"
  /\ \E r \in {ResolveEntries} : led' = r /\ phase' = IF r.ok THEN "loaded" ELSE "rejected"
  /\ UNCHANGED <<coms, dflt, accts, prices, txns>>

-----------------------------------------------------------------------------
(* What a resolved ledger guarantees, independently of how it is computed.     *)

\* C01: transactions within accounts of one commodity, with amounts stated in it, sum to zero.
Balanced ==
  phase = "loaded" =>
    \A i \in 1..Len(led.txns) : LET ps == led.txns[i].posts IN
      (Cardinality({led.com[ps[k].acct] : k \in 1..Len(ps)}) = 1
         /\ \A k \in 1..Len(ps) : ps[k].com = led.com[ps[k].acct])
        => SumSeq([k \in 1..Len(ps) |-> ps[k].q]) = 0
\* C01: every posting is in exactly one account's list, exactly once.
EachPostingOnce ==
  phase = "loaded" =>
    \A i \in 1..Len(led.txns) : \A k \in 1..Len(led.txns[i].posts) :
      \A n \in led.names :
        Cardinality({j \in 1..Len(led.posts[n]) : led.posts[n][j] = <<i, k>>})
          = (IF n = led.txns[i].posts[k].acct THEN 1 ELSE 0)
\* C02: date order and running sums.
Ordered ==
  phase = "loaded" => \A n \in led.names : \A j \in 1..(Len(led.posts[n]) - 1) :
     LET a == led.posts[n][j] b == led.posts[n][j + 1] IN
     \/ led.txns[a[1]].day < led.txns[b[1]].day
     \/ led.txns[a[1]].day = led.txns[b[1]].day /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
SingleCommodity == \A n \in led.names : led.com[n] = dflt
RunningSums ==
  phase = "loaded" => \A n \in led.names : \A j \in 1..Len(led.run[n]) :
     (\A k \in 1..Len(led.posts[n]) : PostOf(led, led.posts[n][k]).com = led.com[n]) =>
       led.run[n][j] = SumSeq([k \in 1..j |-> PostOf(led, led.posts[n][k]).q])
\* C02: a warning for every asserted posting whose value is not the sum of the account's postings so far, and no other.
WarningsExact ==
  (phase = "loaded" /\ Cardinality(DOMAIN coms) = 1) =>
    LET Before(i, k) == {<<j, m>> \in UNION {{<<j, m>> : m \in 1..Len(led.txns[j].posts)} : j \in 1..Len(led.txns)} :
          /\ led.txns[j].posts[m].acct = led.txns[i].posts[k].acct
          /\ \/ led.txns[j].day < led.txns[i].day
             \/ led.txns[j].day = led.txns[i].day /\ (j < i \/ (j = i /\ m <= k))}
        False == {<<i, k>> \in UNION {{<<i, k>> : k \in 1..Len(led.txns[i].posts)} : i \in 1..Len(led.txns)} :
          /\ led.txns[i].posts[k].asserted
          /\ FoldSet(LAMBDA jm, a : a + led.txns[jm[1]].posts[jm[2]].q, 0, Before(i, k)) # led.txns[i].posts[k].bal}
    IN Len(Warnings(led)) = Cardinality(False)
\* The whole ledger sums to zero when there is only one commodity.
BooksBalance ==
  (phase = "loaded" /\ Cardinality(DOMAIN coms) = 1) =>
     FoldSet(LAMBDA n, acc : acc + (IF led.run[n] = <<>> THEN 0 ELSE led.run[n][Len(led.run[n])]), 0, led.names) = 0
=============================================================================
