-------------------------------- MODULE Viewer --------------------------------
(* The viewer of the HTML export: a state machine of what the user has selected *)
(* (ui), and what the page shows of the loaded ledger (led) in every such state. *)
EXTENDS Export

VARIABLE ui

-----------------------------------------------------------------------------
(* Texts.                                                                       *)

IsoText(n) == LET c == Civil(n) IN
  PadZero(ToString(c.y), 4) \o "-" \o PadZero(ToString(c.m), 2) \o "-" \o PadZero(ToString(c.d), 2)
RECURSIVE Thousands(_)
Thousands(s) == IF Len(s) <= 3 THEN s ELSE Thousands(SubSeq(s, 1, Len(s) - 3)) \o "," \o From(s, Len(s) - 2)
\* An amount as shown: with separators of thousands and its commodity.
Money(q, c) ==
  LET p == Split(AmtText(Abs(q), Dec(c)), ".") IN
  (IF q < 0 THEN "-" ELSE "") \o Thousands(p[1]) \o (IF Len(p) = 2 THEN "." \o p[2] ELSE "") \o " " \o c
Relative(n, base) == From(n, Len(base) + 1)

-----------------------------------------------------------------------------
(* The ledger as the viewer sees it.                                           *)

DayOfText(t) == LET p == Split(t, "/") IN DayNum(ValOf(p[1]), ValOf(p[2]), ValOf(p[3]))
ClosedText(n) == IF DeclOf(n) = 0 THEN "" ELSE accts[DeclOf(n)].closedtext
ClosedBy(n, day) == ClosedText(n) # "" /\ DayOfText(ClosedText(n)) <= day

ViewRoots == led.kids["Root"]
RootName(n) == Parts(n)[1]
AllViews == <<"Balances", "Register", "Balances - Chart", "Aggregated Register - Chart">>
ViewsOf(n) == IF RootName(n) \in {"Equity", "Unbalanced"} THEN SubSeq(AllViews, 1, 2) ELSE AllViews
Negated(n) == RootName(n) \in {"Liabilities", "Income"}
WithCumTotal(n) == RootName(n) \in {"Income", "Expenses"}
\* n itself after its ancestors.
Crumbs(n) == LET p == Parts(n) IN [i \in 1..Len(p) |-> Join(SubSeq(p, 1, i), ":")]

\* All sub-accounts of n that are shown, parents first.
RECURSIVE Under(_, _, _)
Under(u, n, excl) ==
  LET ks == SelectSeq(led.kids[n], LAMBDA k : (u.closed \/ ~ClosedBy(k, u.end)) /\ k \notin excl) IN
  FlattenSeqs([i \in 1..Len(ks) |-> <<ks[i]>> \o Under(u, ks[i], excl)])
Shown(u, n, excl) == <<n>> \o Under(u, n, excl)

Day(tp) == led.txns[tp[1]].day
\* The amount q of commodity c in commodity t, rounded to the nearest unit (there is one price).
Conv(q, c, t) ==
  IF c = t \/ q = 0 THEN q
  ELSE LET p == Pow10(Dec(c)) v == led.latest[<<c, t>>] IN (2 * q * v + p) \div (2 * p)
\* The balance of n itself at the end of a day.
BalanceAt(n, day) ==
  LET k == Cardinality({j \in 1..Len(led.posts[n]) : Day(led.posts[n][j]) <= day}) IN
  IF k = 0 THEN 0 ELSE led.run[n][k]
RECURSIVE TotalAt(_, _)
TotalAt(u, n) ==
  LET ks == SelectSeq(led.kids[n], LAMBDA k : u.closed \/ ~ClosedBy(k, u.end)) IN
  BalanceAt(n, u.end) + SumSeq([i \in 1..Len(ks) |-> Conv(TotalAt(u, ks[i]), led.com[ks[i]], led.com[n])])

\* The postings of n in the range of dates.
InDates(u, n) == SelectSeq(led.posts[n], LAMBDA tp : u.start <= Day(tp) /\ Day(tp) <= u.end)
\* The account at the other side of a posting: the first posting of opposite sign, or else the first other one.
Sign(q) == IF q < 0 THEN -1 ELSE IF q > 0 THEN 1 ELSE 0
OtherSide(tp) ==
  LET ps == led.txns[tp[1]].posts
      me == ps[tp[2]]
      others == {k \in 1..Len(ps) : k # tp[2]}
      opposite == {k \in others : Sign(ps[k].q) # Sign(me.q) \/ me.q = 0}
      least(S) == CHOOSE k \in S : \A j \in S : k <= j
  IN IF others = {} THEN "" ELSE ps[least(IF opposite = {} THEN others ELSE opposite)].acct

-----------------------------------------------------------------------------
(* Balances.                                                                   *)

NoTable == [head |-> <<>>, rows |-> <<>>]
DepthBelow(n, base) == DepthOf(n) - DepthOf(base)
BalancesTable(u) ==
  LET s == SelectSeq(Shown(u, u.sel, {}), LAMBDA a : DepthBelow(a, u.sel) <= u.depth) IN
  [head |-> <<"Balance", "Total", "Account">>,
   rows |-> [i \in 1..Len(s) |-> LET a == s[i] IN
              <<Money(BalanceAt(a, u.end), led.com[a]), Money(TotalAt(u, a), led.com[a]), Relative(a, u.sel)>>]]
\* The drawing: every account down to a depth, level by level.
BalancesDrawing(u) ==
  LET s == Shown(u, u.sel, {})
      level(d) == SelectSeq(s, LAMBDA a : DepthBelow(a, u.sel) = d)
      all == FlattenSeqs([d \in 1..u.depth |-> level(d - 1)])
  IN [i \in 1..Len(all) |-> LET a == all[i] b == BalanceAt(a, u.end) IN
        a \o " " \o Money(TotalAt(u, a), led.com[a])
          \o (IF led.kids[a] # <<>> /\ b # 0 THEN " [ " \o Money(b, led.com[a]) \o " ]" ELSE "")]
DrawnAccounts(u) ==
  FlattenSeqs([d \in 1..u.depth |-> SelectSeq(Shown(u, u.sel, {}), LAMBDA a : DepthBelow(a, u.sel) = d - 1)])

-----------------------------------------------------------------------------
(* Registers of postings ps (a sequence of <<transaction, posting>>).          *)

CumTotals(ps, c) ==
  FoldLeft(LAMBDA acc, tp : LET p == PostOf(led, tp) IN
             Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Conv(p.q, led.com[p.acct], c)), <<>>, ps)
RunOf(tp) == LET n == PostOf(led, tp).acct IN led.run[n][CHOOSE j \in 1..Len(led.posts[n]) : led.posts[n][j] = tp]
PostingTable(u, ps, sub, notes, loc) ==
  LET tot == CumTotals(ps, led.com[u.sel])
      row(i) ==
        LET tp == ps[i] t == led.txns[tp[1]] p == t.posts[tp[2]] c == led.com[p.acct] IN
        <<IsoText(t.day), t.desc>>
          \o (IF sub THEN <<ShortenName(Relative(p.acct, u.sel), 30), OtherSide(tp), Money(p.q, c)>>
              ELSE <<OtherSide(tp), Money(p.q, c), Money(RunOf(tp), c)>>)
          \o <<Money(tot[i], led.com[u.sel])>> \o (IF loc THEN <<t.loc>> ELSE <<>>)
      note(i) == <<Join(led.txns[ps[i][1]].notes, "; ")>>
  IN [head |-> <<"Date", "Description">> \o (IF sub THEN <<"SubAccount", "Account", "Amount">> ELSE <<"Account", "Amount", "Balance">>)
                 \o <<"Cum.Total">> \o (IF loc THEN <<"Location">> ELSE <<>>),
      rows |-> IF notes THEN [k \in 1..(2 * Len(ps)) |-> IF k % 2 = 1 THEN row((k + 1) \div 2) ELSE note(k \div 2)]
               ELSE [k \in 1..Len(ps) |-> row(k)]]
\* The postings of the account, or of it and its sub-accounts by date.
RegisterPosts(u) ==
  IF ~u.sub THEN InDates(u, u.sel)
  ELSE LET s == Shown(u, u.sel, {}) IN StableBy(FlattenSeqs([i \in 1..Len(s) |-> InDates(u, s[i])]), Day)

-----------------------------------------------------------------------------
(* Aggregation into periods.                                                   *)

PeriodOf(agg, n) ==
  CASE agg = "Weekly" -> WeekStart(n) [] agg = "Monthly" -> MonthStart(n)
    [] agg = "Quarterly" -> QuarterStart(n) [] OTHER -> YearStart(n)
NextPeriod(agg, n) ==
  CASE agg = "Weekly" -> n + 7 [] agg = "Monthly" -> AddMonths(n, 1)
    [] agg = "Quarterly" -> AddMonths(n, 3) [] OTHER -> AddYears(n, 1)
RECURSIVE PeriodsFrom(_, _, _)
PeriodsFrom(agg, n, end) == IF n > end THEN <<>> ELSE <<n>> \o PeriodsFrom(agg, NextPeriod(agg, n), end)
Periods(u) == PeriodsFrom(u.agg, PeriodOf(u.agg, u.start), u.end)

\* The postings of account n grouped by the periods ds: what a column shows.
Groups(u, ds, n) ==
  LET ps == InDates(u, n)
      of == [i \in 1..Len(ds) |-> SelectSeq(ps, LAMBDA tp : PeriodOf(u.agg, Day(tp)) = ds[i])]
      sum == [i \in 1..Len(ds) |-> SumSeq([k \in 1..Len(of[i]) |-> PostOf(led, of[i][k]).q])]
      tot == FoldLeft(LAMBDA acc, i : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + sum[i]), <<>>, [i \in 1..Len(ds) |-> i])
  IN [i \in 1..Len(ds) |->
        [posts |-> of[i], sum |-> sum[i], tot |-> tot[i],
         bal |-> BalanceAt(n, MaxOf(u.start - 1, MinOf(u.end, NextPeriod(u.agg, ds[i]) - 1)))]]
Figure(u, g) == IF u.style = "Flows" THEN g.sum ELSE g.bal

\* Several columns taken together, in commodity c.
Together(cols, c, i) ==
  LET add(F(_)) == SumSeq([k \in 1..Len(cols) |-> Conv(F(cols[k].groups[i]), cols[k].com, c)]) IN
  [posts |-> FlattenSeqs([k \in 1..Len(cols) |-> cols[k].groups[i].posts]),
   sum |-> add(LAMBDA g : g.sum), tot |-> add(LAMBDA g : g.tot), bal |-> add(LAMBDA g : g.bal)]

\* The columns: the accounts with the largest totals, and the rest as one.
Columns(u, ds) ==
  LET excl == {u.excl[i] : i \in 1..Len(u.excl)}
      s == SelectSeq(Shown(u, u.sel, excl), LAMBDA a : led.posts[a] # <<>>)
      c == led.com[u.sel]
      all == [i \in 1..Len(s) |-> [acct |-> s[i], com |-> led.com[s[i]], groups |-> Groups(u, ds, s[i])]]
      key(col) == LET t == IF Len(ds) = 0 THEN 0 ELSE Conv(col.groups[Len(ds)].tot, col.com, c) IN IF Negated(u.sel) THEN t ELSE -t
      ranked == StableBy(all, key)
  IN IF Len(ranked) <= u.max THEN ranked
     ELSE Append(SubSeq(ranked, 1, u.max - 1),
                 [acct |-> "", com |-> c,
                  groups |-> [i \in 1..Len(ds) |-> Together(SubSeq(ranked, u.max, Len(ranked)), c, i)]])
ColumnLabel(u, col, width) ==
  IF col.acct = "" THEN "Other" ELSE ShortenName(Relative(col.acct, u.sel), (2 * width + u.max) \div (2 * u.max))
\* The columns' sum, row by row.
Totals(u, ds, cols) ==
  LET c == led.com[u.sel]
      raw == [i \in 1..Len(ds) |-> Together(cols, c, i)]
      tot == FoldLeft(LAMBDA acc, i : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + raw[i].sum), <<>>, [i \in 1..Len(ds) |-> i])
  IN [i \in 1..Len(ds) |-> [raw[i] EXCEPT !.tot = tot[i]]]

AggregatedTable(u) ==
  LET ds == Periods(u)
      c == led.com[u.sel]
      cum == WithCumTotal(u.sel)
      cumCell(g) == IF cum THEN <<Money(g.tot, c)>> ELSE <<>>
  IN
  IF ~u.sub
  THEN LET gs == Groups(u, ds, u.sel) IN
       [head |-> <<"Date", "Amount">> \o (IF cum THEN <<"Cum.Total">> ELSE <<>>),
        rows |-> [i \in 1..Len(ds) |-> <<IsoText(ds[i]), Money(Figure(u, gs[i]), c)>> \o cumCell(gs[i])]]
  ELSE LET cols == Columns(u, ds)
           tots == Totals(u, ds, cols)
       IN
       [head |-> <<"Date">> \o [k \in 1..Len(cols) |-> ColumnLabel(u, cols[k], 150)] \o <<"Total">> \o (IF cum THEN <<"Cum.Total">> ELSE <<>>),
        rows |-> [i \in 1..Len(ds) |->
                   <<IsoText(ds[i])>> \o [k \in 1..Len(cols) |-> Money(Figure(u, cols[k].groups[i]), cols[k].com)]
                     \o <<Money(Figure(u, tots[i]), c)>> \o cumCell(tots[i])]]
AggregatedDrawing(u) ==
  LET ds == Periods(u) cols == Columns(u, ds) IN
  FlattenSeqs([k \in 1..Len(cols) |-> [i \in 1..Len(ds) |->
     (IF cols[k].acct = "" THEN "Other" ELSE cols[k].acct) \o " " \o Money(Figure(u, cols[k].groups[i]), cols[k].com)]])
DrawingLegend(u) == LET cols == Columns(u, Periods(u)) IN [k \in 1..Len(cols) |-> ColumnLabel(u, cols[k], 180)]

\* The postings with the largest amounts, at most 20.
Largest(u, ps) ==
  LET s == StableBy(ps, LAMBDA tp : LET p == PostOf(led, tp) IN -Abs(Conv(p.q, led.com[p.acct], led.com[u.sel]))) IN
  SubSeq(s, 1, MinOf(20, Len(s)))
DetailsTable(u, ps, sub) == PostingTable(u, Largest(u, ps), sub, FALSE, TRUE)

-----------------------------------------------------------------------------
(* What the page shows.                                                        *)

IsReg(u) == u.view = "Register"
IsAggChart(u) == u.view = "Aggregated Register - Chart"
IsBal(u) == u.view \in {"Balances", "Balances - Chart"}
Aggregated(u) == IsAggChart(u) \/ (IsReg(u) /\ u.agg # "None")
WithColumns(u) == IsAggChart(u) \/ (IsReg(u) /\ u.agg # "None" /\ u.sub)
If(c, x) == IF c THEN <<x>> ELSE <<>>
OnOff(b) == IF b THEN "true" ELSE "false"
AggChoices == <<"None", "Weekly", "Monthly", "Quarterly", "Yearly">>

MainTable(u) ==
  CASE u.view = "Balances" -> BalancesTable(u)
    [] IsReg(u) /\ u.agg = "None" -> PostingTable(u, RegisterPosts(u), u.sub, u.notes, u.loc)
    [] IsReg(u) -> AggregatedTable(u)
    [] OTHER -> NoTable
Drawing(u) ==
  CASE u.view = "Balances - Chart" -> BalancesDrawing(u)
    [] IsAggChart(u) -> AggregatedDrawing(u)
    [] OTHER -> <<>>

Controls(u) ==
  [views |-> ViewsOf(u.sel), view |-> u.view, start |-> IsoText(u.start), end |-> IsoText(u.end), closed |-> u.closed,
   sub |-> If(IsReg(u), OnOff(u.sub)), notes |-> If(IsReg(u) /\ u.agg = "None", OnOff(u.notes)), loc |-> If(IsReg(u) /\ u.agg = "None", OnOff(u.loc)),
   agg |-> If(IsReg(u) \/ IsAggChart(u), u.agg), style |-> If(Aggregated(u), u.style),
   max |-> If(WithColumns(u), ToString(u.max)), depth |-> If(IsBal(u), ToString(u.depth)),
   aggs |-> IF IsReg(u) THEN AggChoices ELSE IF IsAggChart(u) THEN Tail(AggChoices) ELSE <<>>,
   excl |-> If(WithColumns(u), [i \in 1..Len(u.excl) |-> Relative(u.excl[i], u.sel)])]

-----------------------------------------------------------------------------
(* Actions of the user.                                                        *)

ByRange(u) ==
  LET days == u.end - u.start IN
  IF days < 180 THEN "Weekly" ELSE IF days < 540 THEN "Monthly" ELSE IF days < 1825 THEN "Quarterly" ELSE "Yearly"
\* The drawing is always aggregated.
Render(u) == IF IsAggChart(u) /\ u.agg = "None" THEN [u EXCEPT !.agg = ByRange(u)] ELSE u
\* Another account is looked at.
Look(u, n) == Render([u EXCEPT !.sel = n, !.excl = <<>>])
\* The list of accounts starts from n.
ListFrom(u, n) ==
  LET v == IF \E i \in 1..Len(ViewsOf(n)) : ViewsOf(n)[i] = u.view THEN u.view ELSE ViewsOf(n)[1] IN
  Look([u EXCEPT !.sel = n, !.view = v, !.top = n, !.list = Under(u, n, {})], n)
Redate(u) == Render(IF u.agg = "None" THEN u ELSE [u EXCEPT !.agg = ByRange(u)])

NoDetails == [open |-> FALSE, table |-> NoTable]
Start ==
  LET days == {led.txns[i].day : i \in 1..Len(led.txns)}
      first == CHOOSE d \in days : \A e \in days : d <= e
      final == CHOOSE d \in days : \A e \in days : e <= d
      u == [sel |-> "Assets", top |-> "Assets", list |-> <<>>, view |-> "Balances",
            start |-> YearStart(first), end |-> AddYears(YearStart(final), 1) - 1, closed |-> FALSE,
            sub |-> FALSE, excl |-> <<>>, notes |-> FALSE, loc |-> FALSE, agg |-> "None", max |-> 5, style |-> "Flows",
            depth |-> 3, details |-> NoDetails]
  IN ListFrom(u, "Assets")

\* A cell of the aggregated register: the postings it stands for.
CellPosts(u, r, c) ==
  LET ds == Periods(u) IN
  IF ~u.sub THEN Groups(u, ds, u.sel)[r].posts
  ELSE LET cols == Columns(u, ds) IN
       IF c <= Len(cols) THEN cols[c].groups[r].posts ELSE Together(cols, led.com[u.sel], r).posts
Open(u, ps, sub) == [u EXCEPT !.details = [open |-> TRUE, table |-> DetailsTable(u, ps, sub)]]
BarCol(u, i) == ((i - 1) \div Len(Periods(u))) + 1
BarRow(u, i) == ((i - 1) % Len(Periods(u))) + 1

\* The page after action a (positions count from 0, as the page does).
After(u, a) ==
  CASE a.do = "root" -> ListFrom(u, a.v)
    [] a.do = "account" -> Look(u, u.list[a.i + 1])
    [] a.do = "open" -> ListFrom(u, u.list[a.i + 1])
    [] a.do = "crumb" -> LET n == Crumbs(u.sel)[a.i + 1] IN IF IsUnder(u.top, n) THEN ListFrom(u, n) ELSE Look(u, n)
    [] a.do = "box" -> Look(u, DrawnAccounts(u)[a.i + 1])
    [] a.do = "view" -> Render([u EXCEPT !.view = a.v])
    [] a.do = "start" -> Redate([u EXCEPT !.start = a.n])
    [] a.do = "end" -> Redate([u EXCEPT !.end = a.n])
    [] a.do = "closed" -> LET w == [u EXCEPT !.closed = ~@] IN ListFrom(w, w.sel)
    [] a.do = "sub" -> [u EXCEPT !.sub = ~@]
    [] a.do = "notes" -> [u EXCEPT !.notes = ~@]
    [] a.do = "loc" -> [u EXCEPT !.loc = ~@]
    [] a.do = "agg" -> [u EXCEPT !.agg = a.v]
    [] a.do = "style" -> [u EXCEPT !.style = a.v]
    [] a.do = "max" -> [u EXCEPT !.max = MaxOf(1, a.n)]
    [] a.do = "depth" -> [u EXCEPT !.depth = a.n]
    [] a.do = "header" -> [u EXCEPT !.excl = Append(@, Columns(u, Periods(u))[a.i].acct)]
    [] a.do = "legend" -> [u EXCEPT !.excl = Append(@, Columns(u, Periods(u))[a.i + 1].acct)]
    [] a.do = "include" -> [u EXCEPT !.excl = SubSeq(@, 1, a.i) \o SubSeq(@, a.i + 2, Len(@))]
    [] a.do = "cell" -> Open(u, CellPosts(u, a.r + 1, a.c), u.sub)
    [] a.do = "bar" -> LET col == Columns(u, Periods(u))[BarCol(u, a.i + 1)] IN
                       Open(u, col.groups[BarRow(u, a.i + 1)].posts, col.acct = "")
    [] a.do = "close" -> [u EXCEPT !.details = NoDetails]
Use(a) == ui' = After(ui, a) /\ UNCHANGED lvars
=============================================================================
