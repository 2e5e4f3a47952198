------------------------------ MODULE LedgerText ------------------------------
(* A database directory given as the text of its files.                         *)
EXTENDS Files, Syntax

RawItem(name, it) ==
  [kind |-> it.kind,
   e |-> IF it.kind = "include"
         THEN IF Ch(it.e.path, 1) = "/" THEN [path |-> From(it.e.path, 2), base |-> "cwd"] ELSE [path |-> it.e.path, base |-> "file"]
         ELSE it.e @@ [loc |-> "DB/" \o name \o ":" \o ToString(it.line)]]
\* The files with the entries their text stands for; an unreadable text is an entry that cannot be read.
ItemsOfText(fs, today) ==
  [i \in 1..Len(fs) |->
     LET r == ReadText(fs[i].lines, today) IN
     [name |-> fs[i].name,
      items |-> IF r.ok THEN [k \in 1..Len(r.out) |-> RawItem(fs[i].name, r.out[k])] ELSE <<[kind |-> "bad", e |-> Bad]>>]]

\* Decimals of the commodities declared before the i-th entry.
DeclaredBefore(es, i) ==
  LET I == {k \in 1..(i - 1) : es[k].kind = "commodity"} IN
  [c \in {es[k].e.id : k \in I} |-> es[CHOOSE k \in I : es[k].e.id = c /\ \A m \in I : es[m].e.id = c => m <= k].e.dec]
AmountOk(a, decs) == a.has => a.com \in DOMAIN decs
EntryOk(x, decs) ==
  IF x.kind = "bad" THEN FALSE
  ELSE IF x.kind = "price" THEN AmountOk(x.e.amt, decs)
  ELSE IF x.kind = "txn" THEN \A k \in 1..Len(x.e.posts) : AmountOk(x.e.posts[k].amt, decs) /\ AmountOk(x.e.posts[k].bal, decs)
  ELSE TRUE
InUnits(a, decs) == IF a.has THEN Units(a, decs[a.com]) ELSE 0
Converted(x, decs) ==
  IF x.kind = "price" THEN
    [kind |-> "price", e |-> [day |-> x.e.day, com |-> x.e.com, cur |-> x.e.cur, val |-> InUnits(x.e.amt, decs), loc |-> x.e.loc]]
  ELSE IF x.kind = "txn" THEN
    [kind |-> "txn", e |-> [x.e EXCEPT !.posts = [k \in 1..Len(x.e.posts) |->
       LET p == x.e.posts[k] IN
       [acct |-> p.acct, has |-> p.amt.has, q |-> InUnits(p.amt, decs), com |-> p.amt.com,
        asserted |-> p.bal.has, bal |-> InUnits(p.bal, decs), balcom |-> p.bal.com, notes |-> p.notes]]]]
  ELSE x

ReadText1(r) ==
  LET es == r.out
      D == [i \in 1..Len(es) |-> DeclaredBefore(es, i)]
  IN IF ~r.ok \/ \E i \in 1..Len(es) : ~EntryOk(es[i], D[i]) THEN Err
     ELSE [ok |-> TRUE, out |-> [i \in 1..Len(es) |-> Converted(es[i], D[i])]]

\* Reads a database given as text.
ReadDatabaseText(fs, today) ==
  /\ phase = "open" /\ txns = <<>> /\ accts = <<>>
  /\ \E items \in {ItemsOfText(fs, today)} : \E r \in {ReadText1(ReadAll(items))} : EnterAll(r)
=============================================================================
