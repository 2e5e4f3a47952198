------------------------------ MODULE MC_Viewer ------------------------------
(* Everything a user can do in the viewer of a small export, up to a number of    *)
(* actions.  The invariants are what its figures mean; the sequences of actions   *)
(* are printed, to be replayed in the real page.                                  *)
EXTENDS Viewer, Json

CONSTANTS Book, Depth, Focus, Emit
VARIABLE hist
mvars == <<lvars, ui, hist>>

Com(dec) == [dec |-> dec, name |-> "", sym |-> "", nomarket |-> FALSE]
Acc(name, com, closed) == [name |-> name, com |-> com, dflt |-> "CAD", closed |-> closed # "", closedtext |-> closed, desc |-> "", loc |-> ""]
P(acct, q, com) == [acct |-> acct, has |-> TRUE, q |-> q, com |-> com, asserted |-> FALSE, bal |-> 0, balcom |-> "", notes |-> <<>>]
T(day, notes, posts) == [day |-> day, code |-> "", desc |-> "x", notes |-> notes, posts |-> posts, loc |-> ""]

Jan1 == 18262                                     \* 2020-01-01
BookAccts ==
  CASE Book = "one" -> <<Acc("Assets", "", ""), Acc("Assets:B", "", ""), Acc("Assets:B:C", "", "2020/03/01"), Acc("Assets:D", "", ""),
                          Acc("Expenses", "", ""), Acc("Expenses:F", "", ""), Acc("Expenses:G", "", "")>>
    [] OTHER -> <<Acc("Assets", "", ""), Acc("Assets:U", "USD", ""), Acc("Income", "", ""), Acc("Income:V", "USD", "2020/12/31"), Acc("Income:W", "", "")>>
BookTxns ==
  CASE Book = "one" ->
         <<T(Jan1, <<>>, <<P("Assets", 500, "CAD"), P("Assets:B", -500, "CAD")>>),
           T(Jan1 + 31, <<"n">>, <<P("Assets:B:C", -30, "CAD"), P("Expenses:F", 20, "CAD"), P("Expenses:G", 10, "CAD")>>),
           T(Jan1 + 45, <<>>, <<P("Expenses:F", 15, "CAD"), P("Assets:D", -15, "CAD")>>),
           T(Jan1 + 45, <<>>, <<P("Assets:B:C", 30, "CAD"), P("Assets", -30, "CAD")>>),
           T(Jan1 + 70, <<"n", "m">>, <<P("Expenses", 7, "CAD"), P("Assets:D", -7, "CAD")>>)>>
    [] OTHER ->
         <<T(Jan1 + 10, <<>>, <<P("Assets:U", 100, "USD"), P("Income:V", -100, "USD")>>),
           T(Jan1 + 400, <<>>, <<P("Assets:U", 40, "USD"), P("Assets", 80, "CAD")>>),
           T(Jan1 + 400, <<>>, <<P("Income:W", -60, "CAD"), P("Assets", 60, "CAD")>>),
           T(Jan1 + 420, <<"n">>, <<P("Income", 0, "CAD")>>)>>
BookComs == IF Book = "one" THEN ("CAD" :> Com(2)) ELSE ("CAD" :> Com(2)) @@ ("USD" :> Com(2))
BookPrices == IF Book = "one" THEN <<>> ELSE <<[day |-> Jan1 + 5, com |-> "USD", cur |-> "CAD", val |-> 150, loc |-> ""]>>
\* Where the exploration starts.
Prefix ==
  CASE Focus = "aggregated" -> <<[do |-> "view", v |-> "Register"], [do |-> "agg", v |-> "Quarterly"], [do |-> "sub"]>>
    [] Focus = "chart" -> <<[do |-> "root", v |-> IF Book = "one" THEN "Expenses" ELSE "Income"], [do |-> "view", v |-> "Aggregated Register - Chart"], [do |-> "agg", v |-> "Quarterly"]>>
    [] Focus = "excluded" -> <<[do |-> "view", v |-> "Register"], [do |-> "agg", v |-> "Yearly"], [do |-> "sub"], [do |-> "header", i |-> 2], [do |-> "max", v |-> "2", n |-> 2]>>
    [] Focus = "carried" -> <<[do |-> "view", v |-> "Aggregated Register - Chart"], [do |-> "style", v |-> "Balances"], [do |-> "start", v |-> IsoText(Jan1 + 40), n |-> Jan1 + 40]>>
    [] Focus = "drawn" -> <<[do |-> "root", v |-> IF Book = "one" THEN "Expenses" ELSE "Income"], [do |-> "view", v |-> "Balances - Chart"]>>
    [] Focus = "dated" -> <<[do |-> "end", v |-> IsoText(Jan1 + 60), n |-> Jan1 + 60], [do |-> "view", v |-> "Register"]>>
    [] Focus = "register" -> <<[do |-> "view", v |-> "Register"], [do |-> "sub"]>>
    [] OTHER -> <<>>

MCInit ==
  /\ coms = BookComs /\ dflt = "CAD" /\ accts = BookAccts /\ prices = BookPrices
  /\ txns = [i \in 1..Len(BookTxns) |-> WithTags(BookTxns[i])] /\ phase = "open" /\ led = NoLedger
  /\ ui = [sel |-> ""] /\ hist = <<>>

Edit(u, do, S) == {[do |-> do, v |-> IsoText(n), n |-> n] : n \in S}
Num(do, S) == {[do |-> do, v |-> ToString(n), n |-> n] : n \in S}
Pick(do, s) == {[do |-> do, v |-> s[i]] : i \in 1..Len(s)}
Nth(do, n) == {[do |-> do, i |-> i - 1] : i \in 1..n}
Some(c, S) == IF c THEN S ELSE {}
\* The columns that can be left out: all but the account itself and the rest.
Excludable(u) == {k \in 1..Len(Columns(u, Periods(u))) : LET a == Columns(u, Periods(u))[k].acct IN a # "" /\ a # u.sel}
\* The periods whose cells are looked at.
Cells(u) == LET n == Len(Periods(u)) IN {r \in 1..n : r \in {1, 2, n}}
Acts(u) ==
  Pick("root", ViewRoots) \cup Pick("view", ViewsOf(u.sel)) \cup {[do |-> "closed"]}
  \cup Edit(u, "start", {Jan1, Jan1 + 40}) \cup Edit(u, "end", {Jan1 + 50, Jan1 + 365})
  \cup Nth("account", Len(u.list)) \cup Nth("open", Len(u.list))
  \cup Some(u.sel # RootName(u.sel), Nth("crumb", Len(Crumbs(u.sel))))
  \cup Some(IsReg(u), {[do |-> "sub"]}) \cup Some(IsReg(u) /\ u.agg = "None", {[do |-> "notes"], [do |-> "loc"]})
  \cup Some(IsReg(u) \/ IsAggChart(u), Pick("agg", <<"Monthly", "Quarterly", "Yearly">>))
  \cup Some(IsReg(u), {[do |-> "agg", v |-> "None"]})
  \cup Some(Aggregated(u), Pick("style", <<"Flows", "Balances">>))
  \cup Some(WithColumns(u), Num("max", {1, 2, 3})) \cup Some(IsBal(u), Num("depth", {0, 1, 3}))
  \cup Some(WithColumns(u) /\ IsReg(u), {[do |-> "header", i |-> k] : k \in Excludable(u)})
  \cup Some(IsAggChart(u), {[do |-> "legend", i |-> k - 1] : k \in Excludable(u)})
  \cup Some(WithColumns(u), Nth("include", Len(u.excl)))
  \cup Some(Aggregated(u) /\ IsReg(u), {[do |-> "cell", r |-> r - 1, c |-> c] : r \in Cells(u), c \in 1..(IF u.sub THEN Len(Columns(u, Periods(u))) + 1 ELSE 1)})
  \cup Some(IsAggChart(u), {[do |-> "bar", i |-> (k - 1) * Len(Periods(u)) + r - 1] : k \in 1..Len(Columns(u, Periods(u))), r \in Cells(u)})
  \cup Some(u.view = "Balances - Chart", Nth("box", Len(DrawnAccounts(u))))
  \cup Some(u.details.open, {[do |-> "close"]})

MCNext ==
  \/ Load /\ UNCHANGED <<ui, hist>>
  \/ phase = "loaded" /\ ui.sel = "" /\ ui' = FoldLeft(After, Start, Prefix) /\ hist' = Prefix /\ UNCHANGED lvars
  \/ /\ phase = "loaded" /\ ui.sel # "" /\ Len(hist) < Len(Prefix) + Depth
     /\ \E a \in Acts(ui) : Use(a) /\ hist' = Append(hist, a)
MCSpec == MCInit /\ [][MCNext]_mvars
\* What the user did does not matter, only what is shown.
Seen == <<phase, ui, IF Emit THEN hist ELSE <<>>, Len(hist)>>

-----------------------------------------------------------------------------
Open0 == phase = "loaded" /\ ui.sel # ""
One == Cardinality(DOMAIN coms) = 1
AddUp(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
Sel0 == [ui EXCEPT !.excl = <<>>]
Within == {tp \in UNION {Range(led.posts[n]) : n \in Range(Shown(ui, ui.sel, {}))} : ui.start <= Day(tp) /\ Day(tp) <= ui.end}
Quantity(tp) == PostOf(led, tp).q

Loads == phase # "rejected"
\* What is selected exists and can be selected.
Sound ==
  Open0 => /\ ui.sel \in led.names /\ ui.view \in Range(ViewsOf(ui.sel))
           /\ \A i \in 1..Len(ui.list) : IsUnder(ui.list[i], ui.top)
           /\ \A i \in 1..Len(ui.excl) : IsUnder(ui.excl[i], ui.sel) /\ (\A j \in 1..(i - 1) : ui.excl[j] # ui.excl[i])
           /\ (IsAggChart(ui) => ui.agg # "None")
\* Totals are the balances of an account and everything below it that is shown.
TotalsAddUp ==
  (Open0 /\ One) => \A n \in Range(Shown(ui, ui.sel, {})) : TotalAt(ui, n) = AddUp(Range(Shown(ui, n, {})), LAMBDA a : BalanceAt(a, ui.end))
\* A register shows the postings of the dates chosen, each once, by date, and adds them up.
RegisterRight ==
  Open0 =>
    LET ps == RegisterPosts([ui EXCEPT !.sub = TRUE]) tot == CumTotals(ps, led.com[ui.sel]) IN
    /\ Range(ps) = Within /\ Len(ps) = Cardinality(Within)
    /\ \A i \in 1..(Len(ps) - 1) : Day(ps[i]) <= Day(ps[i + 1])
    /\ (One /\ ps # <<>> => tot[Len(tot)] = AddUp(Within, Quantity))
\* The periods cover the dates chosen; every posting is in one of them.
PeriodsRight ==
  (Open0 /\ Aggregated(ui)) =>
    LET ds == Periods(ui) IN
    /\ (ds # <<>> => ds[1] <= ui.start /\ NextPeriod(ui.agg, ds[Len(ds)]) > ui.end)
    /\ \A i \in 1..(Len(ds) - 1) : ds[i + 1] = NextPeriod(ui.agg, ds[i])
    /\ \A n \in led.names :
         LET g == Groups(ui, ds, n) IN
         /\ FlattenSeqs([i \in 1..Len(ds) |-> g[i].posts]) = InDates(ui, n)
         /\ \A i \in 1..Len(ds) : g[i].sum = SumSeq([k \in 1..Len(g[i].posts) |-> Quantity(g[i].posts[k])])
         \* balances are carried over from period to period
         /\ \A i \in 1..Len(ds) : g[i].bal - (IF i = 1 THEN BalanceAt(n, ui.start - 1) ELSE g[i - 1].bal) = g[i].sum
         /\ (ds # <<>> /\ ui.start <= ui.end => g[Len(ds)].bal = BalanceAt(n, ui.end))
\* The columns are as many as asked for at most, and with the total of the rest they leave nothing out.
ColumnsRight ==
  (Open0 /\ WithColumns(ui)) =>
    LET ds == Periods(ui) cols == Columns(ui, ds) excl == Range(ui.excl) c == led.com[ui.sel]
        all == {a \in Range(Shown(ui, ui.sel, excl)) : led.posts[a] # <<>>}
    IN /\ Len(cols) <= ui.max
       /\ (Len(cols) = Cardinality(all) \/ (Len(cols) = ui.max /\ cols[ui.max].acct = ""))
       /\ \A i \in 1..Len(ds) :
            /\ Len(Together(cols, c, i).posts) = AddUp(all, LAMBDA a : Len(Groups(ui, ds, a)[i].posts))
            /\ (One => Figure(ui, Totals(ui, ds, cols)[i]) = AddUp(all, LAMBDA a : Figure(ui, Groups(ui, ds, a)[i])))
       \* the accounts of columns of their own are the largest
       /\ \A i \in 1..Len(cols) : \A a \in all :
            (ds # <<>> /\ cols[i].acct # "" /\ (\A j \in 1..Len(cols) : cols[j].acct # a)) =>
              LET x == Conv(Groups(ui, ds, a)[Len(ds)].tot, led.com[a], c)
                  y == Conv(Groups(ui, ds, cols[i].acct)[Len(ds)].tot, cols[i].com, c)
              IN IF Negated(ui.sel) THEN y <= x ELSE y >= x
\* What a register adds up to does not depend on how it is grouped.
GroupingRight ==
  (Open0 /\ One /\ Aggregated(ui) /\ ui.excl = <<>>) =>
    LET ds == Periods(ui) t == Totals(ui, ds, Columns(ui, ds)) IN
    ds # <<>> => /\ t[Len(ds)].tot = AddUp(Within, Quantity)
                 /\ t[Len(ds)].tot = SumSeq([i \in 1..Len(ds) |-> t[i].sum])
\* Including an excluded account again shows what was shown before; so do other actions that undo each other.
Undone ==
  Open0 =>
    /\ \A a \in Some(WithColumns(ui), {[do |-> "legend", i |-> k - 1] : k \in Excludable(ui)}) :
         LET v == After(ui, a) w == After(v, [do |-> "include", i |-> Len(v.excl) - 1]) IN w = ui
    /\ \A d \in {"sub", "notes", "loc"} : After(After(ui, [do |-> d]), [do |-> d]) = ui
\* The details are the largest of the postings pointed at.
DetailsRight ==
  (Open0 /\ Aggregated(ui)) =>
    \A a \in {x \in Acts(ui) : x.do = "cell"} :
      LET ps == CellPosts(ui, a.r + 1, a.c) s == Largest(ui, ps)
          sz(tp) == LET p == PostOf(led, tp) IN Abs(Conv(p.q, led.com[p.acct], led.com[ui.sel])) IN
      /\ Range(s) \subseteq Range(ps) /\ Len(s) = Cardinality(Range(s)) /\ Len(s) = MinOf(20, Len(ps))
      /\ \A i \in 1..(Len(s) - 1) : sz(s[i]) >= sz(s[i + 1])
Emitted == Emit /\ Open0 /\ Len(hist) = Len(Prefix) + Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
