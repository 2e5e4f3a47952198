------------------------------- MODULE Reports -------------------------------
(* What the reporting commands show of a loaded ledger L (Ledger!led).  A query *)
(* q is a record holding the options of the command; figures are compared as    *)
(* text, in the form in which they are printed.                                 *)
EXTENDS Ledger

-----------------------------------------------------------------------------
(* Selection of postings.                                                      *)

InRange(q, day) == (~q.hasb \/ day >= q.b) /\ (~q.hase \/ day < q.e)
PayeeSelects(q, desc) == ~q.hasp \/ (RexMatches(q.p, TRUE, desc) # q.pinv)
\* Tags of a posting are its own and those of its transaction (each counts separately).
TagSelects(q, t, p) == ~q.hast \/ TagExprSelects(q.t, t.tags \cup p.tags)
Selects(L, q, tp) ==
  LET t == L.txns[tp[1]] p == t.posts[tp[2]] IN
  InRange(q, t.day) /\ PayeeSelects(q, t.desc) /\ TagSelects(q, t, p)
Selected(L, q, n) == SelectSeq(L.posts[n], LAMBDA tp : Selects(L, q, tp))

\* n and all accounts under it, parents first, siblings by name.
RECURSIVE Subtree(_, _)
Subtree(L, n) == <<n>> \o FlattenSeqs([i \in 1..Len(L.kids[n]) |-> Subtree(L, L.kids[n][i])])

SumIn(L, ps, c) ==
  FoldLeft(LAMBDA a, tp : LET p == PostOf(L, tp) IN AddTo(coms, L.latest, a, c, p.q, p.com), ZeroTotal, ps)

QueryAccount(L, q) == IF q.acct = "" THEN "Root" ELSE Denotes(L.names, q.acct)
Failure == [ok |-> FALSE, head |-> "", rows |-> <<>>]

-----------------------------------------------------------------------------
(* balance                                                                     *)

\* Cumulative totals of the accounts under n: a function account -> total.
RECURSIVE Cumulate(_, _, _)
Cumulate(L, own, n) ==
  LET ks == L.kids[n]
      sub == [i \in 1..Len(ks) |-> Cumulate(L, own, ks[i])]
      tot == FoldLeft(LAMBDA a, i : IF ~sub[i][ks[i]].ok THEN [ok |-> FALSE, q |-> 0]
                                    ELSE AddTo(coms, L.latest, a, L.com[n], sub[i][ks[i]].q, L.com[ks[i]]),
                      own[n], [i \in 1..Len(ks) |-> i])
  IN FoldLeft(LAMBDA acc, s : acc @@ s, n :> tot, sub)

BalanceReport(L, q) ==
  LET n == QueryAccount(L, q) IN
  IF n = "" THEN Failure
  ELSE
  LET tree == Subtree(L, n)
      own == [a \in {tree[i] : i \in 1..Len(tree)} |-> SumIn(L, Selected(L, q, a), L.com[a])]
      cum == Cumulate(L, own, n)
      shown == SelectSeq(tree, LAMBDA a : (q.l = 0 \/ DepthOf(a) <= q.l) /\ (q.z \/ cum[a].q # 0))
  IN
  IF \E a \in DOMAIN cum : ~own[a].ok \/ ~cum[a].ok THEN Failure
  ELSE [ok |-> TRUE, head |-> "",
        rows |-> [i \in 1..Len(shown) |-> LET a == shown[i] IN
                    <<Text(own[a].q, L.com[a]), Text(cum[a].q, L.com[a]), L.com[a], a>>]]

-----------------------------------------------------------------------------
(* register                                                                    *)

Label(name, base, size) == ShortenName(TrimPrefix(name, base), size)
OtherPost(L, tp) ==
  LET ps == L.txns[tp[1]].posts IN
  IF Len(ps) < 2 THEN "" ELSE IF tp[2] = 1 THEN ps[2].acct ELSE ps[1].acct

RegisterReport(L, q) ==
  LET n == QueryAccount(L, q) IN
  IF n = "" THEN Failure
  ELSE
  LET accs == IF q.r THEN Subtree(L, n) ELSE <<n>>
      all == FlattenSeqs([i \in 1..Len(accs) |-> Selected(L, q, accs[i])])
      sel == IF q.r THEN StableBy(all, LAMBDA tp : L.txns[tp[1]].day) ELSE all
      run == FoldLeft(LAMBDA acc, tp :
               LET p == PostOf(L, tp) r == AddTo(coms, L.latest, acc.t, L.com[n], p.q, p.com) IN
               [t |-> r, out |-> Append(acc.out, r.q)], [t |-> ZeroTotal, out |-> <<>>], sel)
      Row(i) ==
        LET tp == sel[i] t == L.txns[tp[1]] p == t.posts[tp[2]] IN
        <<DateText(t.day), t.desc>>
          \o (IF q.r THEN <<Label(p.acct, n, q.l)>> ELSE <<>>)
          \o <<Label(OtherPost(L, tp), n, q.l), Text(p.q, p.com), Text(run.out[i], L.com[n]),
               IF p.asserted THEN "*" ELSE "",
               IF q.f THEN t.loc ELSE "">>
          \o (IF q.n THEN p.notes \o t.notes ELSE <<>>)
  IN
  IF ~run.t.ok THEN Failure
  ELSE [ok |-> TRUE, head |-> n \o " " \o L.com[n], rows |-> [i \in 1..Len(sel) |-> Row(i)]]

-----------------------------------------------------------------------------
(* register, aggregated by period (q.period) and/or category (q.cat)            *)

PeriodOf(q, day) ==
  CASE q.period = "w" -> WeekStart(day) [] q.period = "m" -> MonthStart(day)
    [] q.period = "q" -> QuarterStart(day) [] q.period = "y" -> YearStart(day) [] OTHER -> 0
PeriodText(q, k) ==
  CASE q.period = "w" -> DateText(k) [] q.period \in {"m", "q"} -> MonthText(k) [] OTHER -> YearText(k)
CategoryOf(L, q, tp) ==
  LET t == L.txns[tp[1]] p == t.posts[tp[2]] IN
  CASE q.cat = "payee" -> t.desc
    [] q.cat = "tags" ->
         LET ts == TagsWith(t.tags, p.tags) IN
         IF ts = {} THEN "<no-tags>" ELSE Join(SortStrings({TagText(kv) : kv \in ts}), ",")
    [] OTHER -> ""
KeyOf(L, q, tp) == <<PeriodOf(q, L.txns[tp[1]].day), CategoryOf(L, q, tp)>>
KeyLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ StrLt(a[2], b[2]))

BadTotal == [ok |-> FALSE, q |-> 0]

AggregateReport(L, q) ==
  LET n == QueryAccount(L, q) IN
  IF n = "" THEN Failure
  ELSE
  LET tree == Subtree(L, n)
      names == {tree[i] : i \in 1..Len(tree)}
      sel == [a \in names |-> Selected(L, q, a)]
      Under(a) == {b \in names : a = b \/ a = "Root" \/ IsUnder(b, a)}
      KeysOf(a) == {KeyOf(L, q, sel[a][i]) : i \in 1..Len(sel[a])}
      OwnAt(a, k) == SumIn(L, SelectSeq(sel[a], LAMBDA tp : KeyOf(L, q, tp) = k), L.com[a])
      allkeys == UNION {KeysOf(a) : a \in names}
      keys == SetToSortSeq(allkeys, KeyLt)
      active == {a \in names : \E b \in Under(a) : sel[b] # <<>>}
      own == [a \in active |-> [k \in allkeys |-> OwnAt(a, k)]]
      RECURSIVE DeepAt(_, _)
      DeepAt(a, k) ==
        FoldLeft(LAMBDA t, c :
                   IF c \notin active THEN t
                   ELSE LET d == DeepAt(c, k) IN
                        IF ~d.ok THEN BadTotal ELSE AddTo(coms, L.latest, t, L.com[a], d.q, L.com[c]),
                 own[a][k], L.kids[a])
      fig == [a \in active |-> [k \in allkeys |-> IF q.r THEN DeepAt(a, k) ELSE own[a][k]]]
      size == [a \in active |-> Abs(SumSeq([i \in 1..Len(keys) |-> fig[a][keys[i]].q]))]
      ranked == SetToSortSeq(active, LAMBDA a, b : size[a] > size[b] \/ (size[a] = size[b] /\ StrLt(a, b)))
      split == Len(ranked) > q.g
      top == IF split THEN SubSeq(ranked, 1, q.g) ELSE ranked
      rest == IF split THEN SubSeq(ranked, q.g + 1, Len(ranked)) ELSE <<>>
      other == [k \in allkeys |->
                  FoldLeft(LAMBDA t, a : AddTo(coms, L.latest, t, L.com[n], fig[a][k].q, L.com[a]), ZeroTotal, rest)]
      ncol == Len(top) + (IF split THEN 1 ELSE 0)
      Fig(i, j) == IF i <= Len(top) THEN fig[top[i]][keys[j]] ELSE other[keys[j]]
      ComCol(i) == IF i <= Len(top) THEN L.com[top[i]] ELSE L.com[n]
      Shown(i, j) == IF q.c THEN SumSeq([jj \in 1..j |-> Fig(i, jj).q]) ELSE Fig(i, j).q
      ColHead(i) == IF i > Len(top) THEN "Other"
                 ELSE IF top[i] = n THEN LeafOf(n) ELSE Label(top[i], n, q.l)
      Row(j) == (IF q.period # "" THEN <<PeriodText(q, keys[j][1])>> ELSE <<>>)
                \o (IF q.cat # "" THEN <<keys[j][2]>> ELSE <<>>)
                \o [i \in 1..ncol |-> Text(Shown(i, j), ComCol(i))]
      ok == /\ q.c /\ q.cat # "" => active = {}             \* cannot be combined
            /\ \A a \in active : \A k \in allkeys : fig[a][k].ok
            /\ \A k \in allkeys : other[k].ok
  IN
  IF ~ok THEN Failure
  ELSE [ok |-> TRUE,
        head |-> IF q.o = "text" THEN n \o " " \o L.com[n] ELSE "",
        rows |-> IF active = {} THEN <<>>
                 ELSE <<[i \in 1..ncol |-> ColHead(i)]>> \o [j \in 1..Len(keys) |-> Row(j)]]

-----------------------------------------------------------------------------
(* tags                                                                        *)

\* All (key, value, accounts) uses of tags in the ledger.
TagUses(L) ==
  UNION {LET t == L.txns[i] IN
         {<<kv[1], kv[2], {t.posts[k].acct : k \in 1..Len(t.posts)}>> : kv \in t.tags}
         \cup UNION {{<<kv[1], kv[2], {t.posts[k].acct}>> : kv \in t.posts[k].tags} : k \in 1..Len(t.posts)}
         : i \in 1..Len(L.txns)}
TagsReport(L, q) ==
  LET uses == {u \in TagUses(L) : ~q.hasp \/ RexMatches(q.p, TRUE, u[1])}
      keys == SortStrings({u[1] : u \in uses})
      vals(k) == SortStrings({u[2] : u \in {x \in uses : x[1] = k}} \ {""})
      accs(k) == UNION {u[3] : u \in {x \in uses : x[1] = k}}
  IN [ok |-> TRUE, head |-> "",
      rows |-> [i \in 1..Len(keys) |->
         <<keys[i], IF vals(keys[i]) = <<>> THEN "" ELSE ":">>
           \o (IF q.v THEN vals(keys[i]) ELSE <<>>)
           \o (IF q.a THEN <<"\t@">> \o SortStrings(accs(keys[i])) ELSE <<>>)]]

-----------------------------------------------------------------------------
(* stats                                                                       *)

InTxnRange(L, q) == SelectSeq(L.order, LAMBDA i : InRange(q, L.txns[i].day))
SameTxn(L, i, j) ==
  LET a == L.txns[i] b == L.txns[j] IN
  /\ a.day = b.day /\ a.code = b.code /\ Len(a.posts) = Len(b.posts)
  /\ \A k \in 1..Len(a.posts) : a.posts[k].acct = b.posts[k].acct /\ a.posts[k].q = b.posts[k].q /\ a.posts[k].com = b.posts[k].com
StatsReport(L, q) ==
  LET ts == InTxnRange(L, q)
      n == Len(ts)
      unb == FlattenSeqs([x \in 1..n |->
               FlattenSeqs([k \in 1..Len(L.txns[ts[x]].posts) |->
                 IF L.txns[ts[x]].posts[k].acct = "Unbalanced" THEN <<L.txns[ts[x]].loc>> ELSE <<>>])])
      bad == SelectSeq(ts, LAMBDA i : LET ps == L.txns[i].posts IN
               Len(ps) = 2 /\ ps[1].com # ps[2].com
                 /\ ps[1].q * Pow10(Dec(ps[2].com)) = -(ps[2].q * Pow10(Dec(ps[1].com))))
      dup == {<<x, y>> \in (1..n) \X (1..n) : x < y /\ SameTxn(L, ts[x], ts[y])}
      counts == <<ToString(Cardinality(DOMAIN coms)), ToString(Len(prices)), ToString(Cardinality(L.names)), ToString(n)>>
  IN
  IF q.d THEN [ok |-> TRUE, dups |-> {<<L.txns[ts[xy[1]]].loc, L.txns[ts[xy[2]]].loc>> : xy \in dup},
               ndup |-> Cardinality(dup), unb |-> <<>>, bad |-> <<>>, counts |-> <<>>]
  ELSE [ok |-> TRUE, dups |-> {}, ndup |-> 0,
        unb |-> IF q.u THEN unb ELSE <<>>,
        bad |-> IF q.c THEN [x \in 1..Len(bad) |-> L.txns[bad[x]].loc] ELSE <<>>,
        counts |-> counts]

-----------------------------------------------------------------------------
(* accounts and commodities                                                    *)

LastDecl(n) == LET I == {i \in 1..Len(accts) : accts[i].name = n} IN
               IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
RECURSIVE ClosedIn(_, _)
ClosedIn(names, n) ==
  IF n = "" THEN FALSE
  ELSE (LastDecl(n) # 0 /\ accts[LastDecl(n)].closed) \/ ClosedIn(names, TreeParent(n))
AccountsReport(q) ==
  LET names == Closure({accts[i].name : i \in 1..Len(accts)})
      com == AccountComs(names)
      shown == {n \in names : (q.acct = "" \/ ExprMatches(q.acct, n)) /\ (q.c \/ ~ClosedIn(names, n))}
      s == SortStrings(shown)
  IN [ok |-> TRUE, head |-> "",
      rows |-> [i \in 1..Len(s) |->
         <<s[i], com[s[i]], IF LastDecl(s[i]) = 0 THEN "" ELSE Trim(accts[LastDecl(s[i])].desc)>>]]

CommoditiesReport ==
  LET s == SortStrings(DOMAIN coms) IN
  [ok |-> TRUE, head |-> "",
   rows |-> [i \in 1..Len(s) |-> LET c == coms[s[i]] IN
      <<s[i], c.sym, IF c.sym # "" /\ ~c.nomarket THEN "Q" ELSE "", Trim(c.name)>>]]

PricesFor(id, cur) == SelectSeq(prices, LAMBDA p : p.com = id /\ p.cur = cur)
CursOf(id) == SortStrings({prices[i].cur : i \in {j \in 1..Len(prices) : prices[j].com = id}})
PriceListReport(id, f) ==
  [ok |-> TRUE, head |-> "",
   rows |-> FlattenSeqs([i \in 1..Len(CursOf(id)) |->
      LET ps == StableBy(PricesFor(id, CursOf(id)[i]), LAMBDA p : -p.day) IN
      [k \in 1..Len(ps) |-> <<DateText(ps[k].day), Text(ps[k].val, ps[k].cur), ps[k].cur, IF f THEN ps[k].loc ELSE "">>]])]
StatsCell(p, n) == DateText(p.day) \o " " \o Text(p.val, p.cur) \o " " \o p.cur \o " " \o ToString(n)
\* What can be shown of the prices of a commodity in a currency: any of the prices of the latest date, and how many there are.
StatsCells(id, cur) ==
  LET ps == PricesFor(id, cur)
      last == {i \in 1..Len(ps) : \A j \in 1..Len(ps) : ps[j].day <= ps[i].day} IN
  {StatsCell(ps[i], Len(ps)) : i \in last}
PriceStatsReport == LET s == SortStrings(DOMAIN coms) IN
  [i \in 1..Len(s) |-> <<{s[i]}>> \o [k \in 1..Len(CursOf(s[i])) |-> StatsCells(s[i], CursOf(s[i])[k])]]
PriceStatsAllowed(o) ==
  /\ o.ok /\ o.head = "" /\ Len(o.rows) = Len(PriceStatsReport)
  /\ \A i \in 1..Len(o.rows) : LET x == PriceStatsReport[i] IN
       Len(o.rows[i]) = Len(x) /\ \A k \in 1..Len(x) : o.rows[i][k] \in x[k]

-----------------------------------------------------------------------------
(* What the reports guarantee, stated without their computation; checked on the *)
(* model for all queries in a set.                                              *)

\* C03: with one commodity the root's cumulative figure is the sum of all selected postings.
BalanceConserves(q) ==
  (phase = "loaded" /\ Cardinality(DOMAIN coms) = 1) =>
    LET r == BalanceReport(led, [q EXCEPT !.z = TRUE, !.l = 0, !.acct = ""])
        total == SumSeq(FlattenSeqs([i \in 1..Len(led.txns) |->
                   [k \in 1..Len(led.txns[i].posts) |->
                      IF Selects(led, q, <<i, k>>) THEN led.txns[i].posts[k].q ELSE 0]]))
    IN r.ok /\ r.rows[1][2] = Text(total, dflt)
             /\ Len(r.rows) = Cardinality(led.names)
\* C03: the figures of an account are the sums of the selected postings to it, and to it and all the accounts under it.
BalanceAddsUp(q) ==
  (phase = "loaded" /\ Cardinality(DOMAIN coms) = 1) =>
    LET r == BalanceReport(led, [q EXCEPT !.z = TRUE, !.l = 0])
        Total(accs) == SumSeq(FlattenSeqs([i \in 1..Len(led.txns) |->
                         [k \in 1..Len(led.txns[i].posts) |->
                            IF led.txns[i].posts[k].acct \in accs /\ Selects(led, q, <<i, k>>) THEN led.txns[i].posts[k].q ELSE 0]]))
    IN r.ok /\ \A i \in 1..Len(r.rows) : LET a == r.rows[i][4] IN
         /\ r.rows[i][1] = Text(Total({a}), dflt)
         /\ r.rows[i][2] = Text(Total({b \in led.names : b = a \/ a = "Root" \/ IsUnder(b, a)}), dflt)
         /\ \A j \in 1..(i - 1) : ~IsUnder(r.rows[j][4], a)
\* C03: -l only hides rows; -z only adds rows with zero totals.
BalanceLevels(q) ==
  phase = "loaded" =>
    LET full == BalanceReport(led, [q EXCEPT !.z = TRUE, !.l = 0])
        cut == BalanceReport(led, [q EXCEPT !.z = TRUE])
        rows(r) == {r.rows[i] : i \in 1..Len(r.rows)}
    IN full.ok => cut.ok /\ rows(cut) \subseteq rows(full)
\* C04: the last total of a register of the whole subtree is the sum of its lines, and every selected
\* posting is listed once.
RegisterComplete(q) ==
  phase = "loaded" =>
    LET r == RegisterReport(led, q) n == QueryAccount(led, q) IN
    r.ok => Len(r.rows) = FoldSet(LAMBDA a, s : s + (IF a = n \/ (q.r /\ (n = "Root" \/ IsUnder(a, n)))
                                                      THEN Cardinality({tp \in {led.posts[a][i] : i \in 1..Len(led.posts[a])} : Selects(led, q, tp)})
                                                      ELSE 0), 0, led.names)
\* C04/C17: an inverted condition selects exactly the rest.
Complementary(q) ==
  phase = "loaded" => \A n \in led.names :
    LET pos == [q EXCEPT !.hasp = TRUE, !.pinv = FALSE, !.hast = FALSE]
        neg == [q EXCEPT !.hasp = TRUE, !.pinv = TRUE, !.hast = FALSE]
        none == [q EXCEPT !.hasp = FALSE, !.hast = FALSE]
    IN Len(Selected(led, pos, n)) + Len(Selected(led, neg, n)) = Len(Selected(led, none, n))
=============================================================================
