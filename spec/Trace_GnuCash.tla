----------------------------- MODULE Trace_GnuCash -----------------------------
(* Conversions by the real gc2coin against GnuCash.                                *)
EXTENDS GnuCash, TraceBase
VARIABLE l
tvars == <<gvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Nothing == [coms |-> <<>>, accts |-> <<>>, prices |-> <<>>, txns |-> <<>>]
TraceInit == book = Nothing /\ todo = [prices |-> {}, txns |-> {}] /\ files = [f \in {} |-> <<>>] /\ l = 1
Begin == Is("begin") /\ book' = Nothing /\ UNCHANGED <<todo, files>>
TBook == Is("book") /\ Convert(Ev.book)
\* With the ledger format, accounts have no ids for imports and some commodities are quoted.
Plainly(as) == [i \in 1..Len(as) |-> [as[i] EXCEPT !.bank = "", !.acctid = ""]]
OnlyLetters(t) == \A i \in 1..Len(t) : Ch(t, i) \in Letters \cup {"_"}
TConverted ==
  /\ Is("converted")
  /\ Verdict(l, "conversion succeeds", TRUE, Ev.ok)
  /\ Ev.ok =>
       /\ Require(l, "commodities", SameItems(Coms(book), Ev.coms), [expected |-> Coms(book), shown |-> Ev.coms])
       /\ \E want \in {IF Ev.ledger THEN Plainly(Accts(book)) ELSE Accts(book)} :
            Require(l, "accounts", SameItems(want, Ev.accts), [expected |-> want, shown |-> Ev.accts])
       /\ Require(l, "prices", Written(Ev.yearly, Prices(book), Ev.prices, "prices.coin", ".prices"), [expected |-> Prices(book), shown |-> Ev.prices])
       /\ Require(l, "transactions", Written(Ev.yearly, Txns(book), Ev.txns, "transactions.coin", ".coin"), [expected |-> Txns(book), shown |-> Ev.txns])
       /\ \A i \in 1..Len(Ev.quoted) : Verdict(l, "quoted " \o Ev.quoted[i].id, Ev.ledger /\ ~OnlyLetters(Ev.quoted[i].id), Ev.quoted[i].q)
  /\ UNCHANGED gvars
\* The result is loaded and shows what is in each account: rows of [name, last balance].
TLoaded ==
  /\ Is("loaded")
  /\ MustLoad(book) => Verdict(l, "the ledger loads", TRUE, Ev.ok)
  /\ \A k \in 1..Len(Ev.rows) :
       LET I == {i \in 1..Len(book.accts) : FullName(book, book.accts[i].guid) = Ev.rows[k][1]} IN
       Verdict(l, "balance of " \o Ev.rows[k][1],
               IF I = {} THEN "none" ELSE LET g == book.accts[CHOOSE i \in I : TRUE].guid IN Printed(BalanceOf(book, g), DecOf(book, ComOf(book, g))), Ev.rows[k][2])
  /\ UNCHANGED gvars
TraceNext == Begin \/ TBook \/ TConverted \/ TLoaded
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
