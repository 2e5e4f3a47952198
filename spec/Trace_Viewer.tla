----------------------------- MODULE Trace_Viewer -----------------------------
(* Checks what the viewer shows, after every action of a user, against Viewer.  *)
EXTENDS Viewer, TraceBase

VARIABLE l
tvars == <<lvars, ui, l>>
NoUi == [sel |-> ""]

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == LInit /\ ui = NoUi /\ l = 1

Begin == /\ Is("begin")
         /\ coms' = [x \in {} |-> x] /\ dflt' = "CAD"
         /\ accts' = <<>> /\ prices' = <<>> /\ txns' = <<>>
         /\ phase' = "open" /\ led' = NoLedger /\ ui' = NoUi
TCommodity == Is("commodity") /\ DeclareCommodity(Ev) /\ UNCHANGED ui
TAccount == Is("account") /\ DeclareAccount(Ev) /\ UNCHANGED ui
TPrice == Is("price") /\ DeclarePrice(Ev) /\ UNCHANGED ui
TTxn == Is("txn") /\ Enter(Ev) /\ UNCHANGED ui
TResolve == Is("resolve") /\ Load /\ Require(l, "loads", phase' = "loaded", "the scenario should load") /\ UNCHANGED ui

Same(what, x, o) == Verdict(l, what, x, o)
Page(u, o) ==
  IF o.err # "" THEN Require(l, "works", FALSE, o.err)
  ELSE
  LET k == Controls(u) IN
  /\ Same("account", u.sel, o.name) /\ Same("commodity", "(" \o led.com[u.sel] \o ")", o.com)
  /\ Same("list of accounts", [i \in 1..Len(u.list) |-> ShortenName(Relative(u.list[i], u.top), 40)], o.list)
  /\ Same("views", k.views, o.views) /\ Same("view", k.view, o.view)
  /\ Same("start", k.start, o.start) /\ Same("end", k.end, o.end) /\ Same("closed accounts", k.closed, o.closed)
  /\ Same("sub-accounts", k.sub, o.sub) /\ Same("notes", k.notes, o.notes) /\ Same("location", k.loc, o.loc)
  /\ Same("aggregate", k.agg, o.agg) /\ Same("aggregations", k.aggs, o.aggs) /\ Same("style", k.style, o.style)
  /\ Same("sub-account max", k.max, o.max) /\ Same("depth", k.depth, o.depth) /\ Same("excluded", k.excl, o.excl)
  /\ LET t == MainTable(u) IN Same("heads", t.head, o.table.head) /\ Same("rows", t.rows, o.table.rows)
  /\ Same("drawing", Drawing(u), o.chart) /\ Same("legend", IF IsAggChart(u) THEN DrawingLegend(u) ELSE <<>>, o.legend)
  /\ Same("details shown", u.details.open, o.open)
  /\ Same("heads of details", u.details.table.head, o.details.head) /\ Same("rows of details", u.details.table.rows, o.details.rows)

TOpen == /\ Is("page") /\ Same("roots", ViewRoots, Ev.roots)
         /\ ui' = Start /\ Page(ui', Ev.obs) /\ UNCHANGED lvars
TUse == Is("use") /\ Use(Ev.act) /\ Page(ui', Ev.obs)

TraceNext == Begin \/ TCommodity \/ TAccount \/ TPrice \/ TTxn \/ TResolve \/ TOpen \/ TUse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
