------------------------------ MODULE MC_Ledger ------------------------------
(* Small ledgers, explored exhaustively: every sequence of at most MaxTx         *)
(* transactions from a pool is entered after a fixed prelude and loaded.  The    *)
(* invariants are the guarantees of the ledger and its reports; every loaded or  *)
(* rejected ledger is also printed, to be replayed through the real programs.    *)
EXTENDS Reports, Export, Json

CONSTANTS Pool, MaxTx, Queries, Emit

Com(dec) == [dec |-> dec, name |-> "", sym |-> "", nomarket |-> FALSE]
Acc(name, com) == [name |-> name, com |-> com, dflt |-> "CAD", closed |-> FALSE, closedtext |-> "", desc |-> "", loc |-> ""]
P(acct, q, com) == [acct |-> acct, has |-> TRUE, q |-> q, com |-> com, asserted |-> FALSE, bal |-> 0, balcom |-> "", notes |-> <<>>]
PMissing(acct) == [P(acct, 0, "") EXCEPT !.has = FALSE]
PBal(acct, q, com, bal) == [P(acct, q, com) EXCEPT !.asserted = TRUE, !.bal = bal, !.balcom = com]
T(day, desc, notes, posts) == [day |-> day, code |-> "", desc |-> desc, notes |-> notes, posts |-> posts, loc |-> ""]

\* Pool for loading: one transaction of up to three postings over accounts of two commodities.
Opts(accs, qs, cs) == {PMissing(a) : a \in accs} \cup {P(a, q, c) : a \in accs, q \in qs, c \in cs}
PoolLoad ==
  LET o1 == Opts({"A", "A:B", "U"}, {-1, 0, 1, 2}, {"CAD", "USD"})
      o3 == Opts({"A", "U"}, {-2, 1}, {"CAD", "USD"})
  IN {T(18262, "x", <<>>, <<p>>) : p \in o1} \cup {T(18262, "x", <<>>, <<p, r>>) : p \in o1, r \in o1}
     \cup {T(18262, "x", <<>>, <<p, r, s>>) : p \in o3, r \in o3, s \in o3}
\* Pool for order and balances.
PoolOrder ==
  {T(d, "x", <<>>, <<P("A", q, "CAD"), P("A:B", -q, "CAD")>>) : d \in {18262, 18263}, q \in {1, 2}}
  \cup {T(d, "x", <<>>, <<PBal("A", q, "CAD", b), P("A:B", -q, "CAD")>>) : d \in {18262, 18263}, q \in {1, 2}, b \in {1, 3}}
\* Pool for reports: descriptions, tags, three accounts, amounts on both sides of a month.
PoolReport ==
  {T(d, de, no, <<P("A", q, "CAD"), [P(b, -q, "CAD") EXCEPT !.notes = pn]>>) :
     d \in {18261, 18262}, de \in {"x", "Xy"}, no \in {<<>>, <<"#k">>}, q \in {-2, 1}, b \in {"A:B", "C"}, pn \in {<<>>, <<"#k: v">>}}

\* Pool for statistics: duplicates and near duplicates.
PoolStats ==
  {[T(d, "x", <<>>, IF s THEN <<P(a, q, "CAD"), P(b, -q, "CAD")>> ELSE <<P(b, -q, "CAD"), P(a, q, "CAD")>>) EXCEPT !.code = c] :
     d \in {18261, 18262}, a \in {"A", "A:B"}, b \in {"C", "Unbalanced"}, q \in {1, 2}, s \in BOOLEAN, c \in {"", "7"}}
  \cup {T(18262, "x", <<>>, <<P("A", q, "CAD"), P("U", -r, "USD")>>) : q \in {1, 2}, r \in {1, 2}}

RexOf(t, s) == <<[s |-> s, e |-> FALSE, t |-> t]>>
Q0 == [acct |-> "", hasb |-> FALSE, b |-> 0, hase |-> FALSE, e |-> 0, hasp |-> FALSE, pinv |-> FALSE, p |-> <<>>,
       hast |-> FALSE, t |-> [inv |-> FALSE, key |-> <<>>, hasval |-> FALSE, val |-> <<>>],
       r |-> FALSE, l |-> 0, z |-> FALSE, f |-> FALSE, n |-> FALSE, c |-> FALSE, g |-> 5, o |-> "text", period |-> "",
       cat |-> "", v |-> FALSE, a |-> FALSE, u |-> FALSE, d |-> FALSE]
TagQ(inv, hasval) == [inv |-> inv, key |-> RexOf("k", TRUE), hasval |-> hasval, val |-> RexOf("V", FALSE)]
NoQueries == {Q0}
ReportQueries ==
  {[Q0 EXCEPT !.hasb = b, !.b = 18262, !.hasp = p, !.p = RexOf("Y", FALSE), !.hast = t, !.t = TagQ(ti, tv), !.r = r, !.acct = a] :
     b \in BOOLEAN, p \in BOOLEAN, t \in BOOLEAN, ti \in BOOLEAN, tv \in BOOLEAN, r \in BOOLEAN, a \in {"A", "C"}}

MCInit ==
  /\ coms = ("CAD" :> Com(2)) @@ (IF \E t \in Pool : \E i \in 1..Len(t.posts) : t.posts[i].acct = "U" THEN "USD" :> Com(2) ELSE "CAD" :> Com(2))
  /\ dflt = "CAD"
  /\ accts = <<Acc("A", ""), Acc("A:B", ""), Acc("C", "")>> \o (IF "USD" \in DOMAIN coms THEN <<Acc("U", "USD")>> ELSE <<>>)
  /\ prices = IF "USD" \in DOMAIN coms
              THEN <<[day |-> 18262, com |-> "USD", cur |-> "CAD", val |-> 200, loc |-> ""],
                     [day |-> 18262, com |-> "CAD", cur |-> "USD", val |-> 50, loc |-> ""]>> ELSE <<>>
  /\ txns = <<>> /\ phase = "open" /\ led = NoLedger
MCNext == (Len(txns) < MaxTx /\ \E t \in Pool : Enter(t)) \/ (txns # <<>> /\ Load)
MCSpec == MCInit /\ [][MCNext]_lvars

ReportsConserve == \A q \in Queries : BalanceConserves(q) /\ BalanceAddsUp(q) /\ BalanceLevels([q EXCEPT !.l = 1])
RegistersComplete == \A q \in Queries : RegisterComplete(q) /\ Complementary(q)
\* C05: the figures of an aggregated register add up to the postings selected.
AggregatesComplete ==
  phase = "loaded" => \A q \in Queries : \A per \in {"m", "y"} : \A g \in {0, 1} :
    LET qq == [q EXCEPT !.period = per, !.g = g, !.r = FALSE]
        n == QueryAccount(led, qq)
        rep == AggregateReport(led, qq)
        sub == {a \in led.names : a = n \/ IsUnder(a, n)}
        want == FoldSet(LAMBDA a, s : s + (SumIn(led, Selected(led, qq, a), "CAD")).q, 0, sub)
        Num(t) == IF StartsWith(t, "-") THEN -ValOf(SubSeq(t, 2, Len(t) - 3) \o From(t, Len(t) - 1))
                  ELSE ValOf(SubSeq(t, 1, Len(t) - 3) \o From(t, Len(t) - 1))
        got == SumSeq(FlattenSeqs([j \in 1..(Len(rep.rows) - 1) |-> [i \in 1..(Len(rep.rows[j + 1]) - 1) |-> Num(rep.rows[j + 1][i + 1])]]))
    IN rep.ok /\ (rep.rows # <<>> => got = want) /\ (rep.rows = <<>> => want = 0)

\* C19: reported duplicates are the pairs of transactions that agree, each once.
StatsSound ==
  phase = "loaded" =>
    LET r == StatsReport(led, [Q0 EXCEPT !.d = TRUE]) n == Len(led.txns) IN
    r.ndup = Cardinality({<<i, j>> \in (1..n) \X (1..n) : i < j /\ txns[i].day = txns[j].day /\ txns[i].code = txns[j].code
                            /\ led.txns[i].posts = led.txns[j].posts})
\* C24: every transaction and posting is exported once, its balance being its account's running sum unless asserted.
ExportComplete ==
  phase = "loaded" =>
    LET ex == [i \in 1..Len(led.order) |-> ExportedTxn(led, i)] IN
    /\ \A i \in 1..Len(led.txns) : Cardinality({k \in 1..Len(led.order) : led.order[k] = i}) = 1
    /\ \A i \in 1..Len(ex) : Len(ex[i].postings) = Len(led.txns[led.order[i]].posts)
    /\ \A i \in 1..(Len(ex) - 1) : ~StrLt(ex[i + 1].posted, ex[i].posted)

Emitted == Emit /\ phase # "open" => PrintT("SCN " \o ToJson([accepted |-> (phase = "loaded"), txns |-> txns]))
=============================================================================
