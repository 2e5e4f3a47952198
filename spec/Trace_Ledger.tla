----------------------------- MODULE Trace_Ledger -----------------------------
(* Checks traces of the real coin and coin2html against Ledger and Reports.     *)
EXTENDS Reports, Export, LedgerText, TraceBase

VARIABLE l
tvars == <<lvars, l>>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1

TraceInit == LInit /\ l = 1

Begin == /\ Is("begin")
         /\ coms' = [x \in {} |-> x] /\ dflt' = "CAD"
         /\ accts' = <<>> /\ prices' = <<>> /\ txns' = <<>>
         /\ phase' = "open" /\ led' = NoLedger
TCommodity == Is("commodity") /\ DeclareCommodity(Ev)
TAccount == Is("account") /\ DeclareAccount(Ev)
TPrice == Is("price") /\ DeclarePrice(Ev)
TTxn == Is("txn") /\ Enter(Ev)

\* A whole database directory at once.
TDatabase == Is("database") /\ ReadDatabase(Ev.fs)
\* The same as text.
TText == Is("text") /\ ReadDatabaseText(Ev.fs, Ev.today)
\* A database that cannot be read.
TUnreadable == /\ Is("load") /\ phase = "rejected"
               /\ Verdict(l, "accepted", FALSE, Ev.ok) /\ Require(l, "no report", Ev.quiet, "standard output was not empty")
               /\ UNCHANGED lvars

\* Loading: accepted or rejected, and the warnings given.
TLoad ==
  /\ Is("load") /\ Load
  /\ Verdict(l, "accepted", phase' = "loaded", Ev.ok)
  /\ IF phase' = "loaded" /\ Ev.ok
     THEN Require(l, "warnings", SameBag(Warnings(led'), Ev.warn), [expected |-> Warnings(led'), observed |-> Ev.warn])
     ELSE Require(l, "rejected ledgers give no report", Ev.ok \/ Ev.quiet, "standard output was not empty")
\* Loading where only acceptance and effects are looked at elsewhere.
TResolve == Is("resolve") /\ Load /\ Require(l, "loads", phase' = "loaded", "the scenario should load")

Report(name, expected) ==
  /\ Is(name)
  /\ LET x == IF phase = "rejected" THEN Failure ELSE expected IN
     IF ~x.ok /\ ~Ev.obs.ok THEN Require(l, name \o " fails without figures", Ev.obs.rows = <<>>, Ev.obs)
     ELSE Verdict(l, name, x, Ev.obs)
  /\ UNCHANGED lvars

TBalance == Report("balance", BalanceReport(led, Ev.q))
TRegister == Report("register", RegisterReport(led, Ev.q))
TAggregate == Report("aggregate", AggregateReport(led, Ev.q))
TTags == Report("tags", TagsReport(led, Ev.q))
TAccounts == /\ Is("accounts") /\ Verdict(l, "accounts", AccountsReport(Ev.q), Ev.obs) /\ UNCHANGED lvars
TCommodities == /\ Is("commodities") /\ Verdict(l, "commodities", CommoditiesReport, Ev.obs) /\ UNCHANGED lvars
\* Which of several prices of one date comes first is not specified.
TPriceList ==
  /\ Is("pricelist")
  /\ LET x == PriceListReport(Ev.q.acct, Ev.q.f)
         Key(r) == [i \in 1..Len(r) |-> <<r[i][1], r[i][3]>>] IN
     /\ Verdict(l, "pricelist ok", x.ok, Ev.obs.ok)
     /\ Require(l, "pricelist", SameBag(x.rows, Ev.obs.rows), [expected |-> x.rows, observed |-> Ev.obs.rows])
     /\ Verdict(l, "pricelist order", Key(x.rows), Key(Ev.obs.rows))
  /\ UNCHANGED lvars
TPriceStats ==
  /\ Is("pricestats")
  /\ Require(l, "pricestats", PriceStatsAllowed(Ev.obs), [expected |-> PriceStatsReport, observed |-> Ev.obs])
  /\ UNCHANGED lvars

TStats ==
  /\ Is("stats")
  /\ LET x == StatsReport(led, Ev.q) o == Ev.obs IN
     /\ Verdict(l, "stats ok", phase = "loaded", o.ok)
     /\ (phase = "loaded" /\ o.ok) =>
          /\ Verdict(l, "duplicates", x.dups, SeqSet(o.dups))
          /\ Verdict(l, "number of duplicates", x.ndup, Len(o.dups))
          /\ Require(l, "unbalanced", SameBag(x.unb, o.unb), [expected |-> x.unb, observed |-> o.unb])
          /\ Require(l, "bad conversions", SameBag(x.bad, o.bad), [expected |-> x.bad, observed |-> o.bad])
          /\ Verdict(l, "counts", x.counts, o.counts)
  /\ UNCHANGED lvars

\* Which account an expression denotes.
TDenotes ==
  /\ Is("denotes")
  /\ Verdict(l, "account denoted by " \o Ev.expr, Denotes(Closure({accts[i].name : i \in 1..Len(accts)}), Ev.expr), Ev.obs)
  /\ UNCHANGED lvars

\* A report whose figure may come from any chain of prices.
TConvert ==
  /\ Is("convert")
  /\ LET latest == LatestPrices(prices)
         all == {Text(x, Ev.to) : x \in ConvAll(coms, latest, Ev.q, Ev.from, Ev.to, {})} IN
     IF all = {} THEN Require(l, "no conversion", ~Ev.obs.ok /\ Ev.obs.val = "", Ev.obs)
     ELSE Require(l, "conversion", Ev.obs.ok /\ Ev.obs.val \in all, [expected |-> all, observed |-> Ev.obs])
  /\ UNCHANGED lvars

TExport ==
  /\ Is("export")
  /\ Verdict(l, "page", phase = "loaded", Ev.obs.ok)
  /\ (phase = "loaded" /\ Ev.obs.ok) =>
       /\ Require(l, "valid blocks", Ev.obs.valid, Ev.obs.why)
       /\ Verdict(l, "commodities", ExportedCommodities, SeqSet(Ev.obs.commodities))
       /\ Verdict(l, "number of commodities", Cardinality(DOMAIN coms), Len(Ev.obs.commodities))
       /\ Require(l, "prices", SameBag(ExportedPrices, Ev.obs.prices), [expected |-> ExportedPrices, observed |-> Ev.obs.prices])
       /\ Verdict(l, "accounts", ExportedAccounts(led), SeqSet(Ev.obs.accounts))
       /\ Verdict(l, "number of accounts", Cardinality(led.names), Len(Ev.obs.accounts))
       /\ Verdict(l, "number of transactions", Len(led.order), Len(Ev.obs.transactions))
       /\ \A i \in 1..MinOf(Len(led.order), Len(Ev.obs.transactions)) :
             Verdict(l, "transaction", ExportedTxn(led, i), Ev.obs.transactions[i])
  /\ UNCHANGED lvars

TSame == /\ Is("same") /\ Verdict(l, "same output: " \o Ev.what, Ev.first, Ev.again) /\ UNCHANGED lvars

TraceNext ==
  \/ TDatabase \/ TText \/ TUnreadable \/ TSame
  \/ Begin \/ TCommodity \/ TAccount \/ TPrice \/ TTxn \/ TLoad \/ TResolve
  \/ TBalance \/ TRegister \/ TAggregate \/ TTags \/ TStats \/ TAccounts \/ TCommodities
  \/ TPriceList \/ TPriceStats \/ TDenotes \/ TConvert \/ TExport

TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* Every event was taken by an action.
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
