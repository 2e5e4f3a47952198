------------------------------ MODULE MC_Prices ------------------------------
(* Every graph of prices over a few commodities: prices are added one by one, in *)
(* any order and with two dates per pair.                                        *)
EXTENDS Ledger, Json
CONSTANTS Coms, MaxPrices, Emit
Pairs == {p \in Coms \X Coms : p[1] # p[2]}
DecOf == [c \in Coms |-> IF c = "A" THEN 2 ELSE IF c = "B" THEN 0 ELSE IF c = "C" THEN 3 ELSE 2]
\* Prices so that every chain has another product.
ValFor(p, day) == LET k == CHOOSE i \in 1..Cardinality(Pairs) : SetToSeq(Pairs)[i] = p IN 11 + 7 * k + 2 * day
MCInit ==
  /\ coms = [c \in Coms |-> [dec |-> DecOf[c], name |-> "", sym |-> "", nomarket |-> FALSE]]
  /\ dflt = "A" /\ accts = <<>> /\ prices = <<>> /\ txns = <<>> /\ phase = "open" /\ led = NoLedger
MCNext ==
  \E p \in Pairs, day \in {0, 1} :
     /\ Len(prices) < MaxPrices
     /\ ~ \E i \in 1..Len(prices) : prices[i].com = p[1] /\ prices[i].cur = p[2] /\ prices[i].day = day
     /\ DeclarePrice([day |-> day, com |-> p[1], cur |-> p[2], val |-> ValFor(p, day), loc |-> ""])
MCSpec == MCInit /\ [][MCNext]_lvars
latest == LatestPrices(prices)
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup {pr[2] : pr \in {x \in DOMAIN latest : x[1] \in S}}, n - 1)
Q == 1000
\* A conversion exists exactly if there is a chain, and its result is that of one of the chains.
ChainOrNone == \A c, d \in Coms : LET r == ConvVia(coms, latest, Q, c, d, {}) all == ConvAll(coms, latest, Q, c, d, {}) IN
  /\ r.ok <=> d \in Reach({c}, Cardinality(Coms))
  /\ r.ok => r.q \in all
  /\ ~r.ok => all = {}
\* A direct price decides.
Direct == \A pr \in DOMAIN latest : ConvAll(coms, latest, Q, pr[1], pr[2], {}) = {Times(latest[pr], Q, DecOf[pr[1]])}
\* The price with the latest date counts.
Latest == \A i \in 1..Len(prices) : \E j \in 1..Len(prices) :
  prices[j].com = prices[i].com /\ prices[j].cur = prices[i].cur /\ prices[j].day >= prices[i].day
  /\ latest[<<prices[i].com, prices[i].cur>>] = prices[j].val
\* The order in which prices are read does not matter.
OrderFree == LET rev == [i \in 1..Len(prices) |-> prices[Len(prices) + 1 - i]] IN LatestPrices(rev) = latest
Opposite == \A c, d \in Coms : LET r == ConvVia(coms, latest, Q, c, d, {}) m == ConvVia(coms, latest, -Q, c, d, {}) IN
  r.ok = m.ok /\ (r.ok => m.q = -r.q)
Emitted == Emit => PrintT("SCN " \o ToJson([prices |-> prices]))
=============================================================================
