------------------------------- MODULE Export -------------------------------
(* What the HTML export embeds of a loaded ledger.                              *)
EXTENDS Ledger

ExportedCommodities == {<<id, coms[id].name, ToString(coms[id].dec)>> : id \in DOMAIN coms}
ExportedPrices ==
  [i \in 1..Len(prices) |-> LET p == prices[i] IN
     <<DateText(p.day), p.com, p.cur, Text(p.val, p.cur) \o " " \o p.cur, p.loc>>]
DeclOf(n) == LET I == {i \in 1..Len(accts) : accts[i].name = n} IN
             IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
ExportedAccounts(L) ==
  {<<n, LeafOf(n), L.com[n], TreeParent(n),
     IF DeclOf(n) = 0 THEN "" ELSE accts[DeclOf(n)].closedtext,
     IF DeclOf(n) = 0 THEN "" ELSE accts[DeclOf(n)].loc>> : n \in L.names}
TagPairs(tags) == LET ks == SortStrings({kv[1] : kv \in tags}) IN
  [i \in 1..Len(ks) |-> CHOOSE kv \in tags : kv[1] = ks[i]]
ExportedPost(L, tp) ==
  LET p == PostOf(L, tp)
      n == p.acct
      j == CHOOSE j \in 1..Len(L.posts[n]) : L.posts[n][j] = tp
  IN [account |-> n, quantity |-> Text(p.q, p.com) \o " " \o p.com,
      balance |-> IF p.asserted THEN Text(p.bal, p.balcom) \o " " \o p.balcom
                  ELSE Text(L.run[n][j], L.com[n]) \o " " \o L.com[n],
      asserted |-> p.asserted, notes |-> p.notes, tags |-> TagPairs(p.tags)]
ExportedTxn(L, i) ==
  LET t == L.txns[L.order[i]] IN
  [posted |-> DateText(t.day), code |-> t.code, description |-> t.desc, notes |-> t.notes,
   tags |-> TagPairs(t.tags), location |-> t.loc,
   postings |-> [k \in 1..Len(t.posts) |-> ExportedPost(L, <<L.order[i], k>>)]]
=============================================================================
