------------------------------ MODULE PostingIndex ------------------------------
(* The postings of each account, in date order, through any history of posting,     *)
(* moving and dropping.                                                           *)
EXTENDS Strs, Integers, Sequences, FiniteSets, SequencesExt

VARIABLES idx,      \* [account -> sequence of postings]
          info      \* [posting -> [day, txn]], of the postings there are
pvars == <<idx, info>>
PInit == idx = <<>> /\ info = <<>>

List(x, a) == IF a \in DOMAIN x THEN x[a] ELSE <<>>
With(x, a, s) == [b \in DOMAIN x \cup {a} |-> IF b = a THEN s ELSE x[b]]
\* After those of the same date.
Put(s, p, inf) ==
  LET before == {i \in 1..Len(s) : inf[s[i]].day <= inf[p].day}
      k == IF before = {} THEN 0 ELSE CHOOSE i \in before : \A j \in before : j <= i
  IN SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))
Without(s, P) == SelectSeq(s, LAMBDA p : p \notin P)
PutIn(x, a, p, inf) == With(x, a, Put(List(x, a), p, inf))
OwnerOf(p) == CHOOSE a \in DOMAIN idx : \E i \in 1..Len(idx[a]) : idx[a][i] = p

\* posts: sequence of [id, acct, day, txn], one after the other
Post(posts) ==
  LET new == {posts[i].id : i \in 1..Len(posts)}
      inf == [p \in DOMAIN info \cup new |-> IF p \in new
                THEN LET r == posts[CHOOSE i \in 1..Len(posts) : posts[i].id = p] IN [day |-> r.day, txn |-> r.txn] ELSE info[p]]
  IN /\ info' = inf
     /\ idx' = FoldLeft(LAMBDA x, r : PutIn(x, r.acct, r.id, inf), idx, posts)
Move(p, a) ==
  LET o == OwnerOf(p) IN
  /\ idx' = IF o = a THEN idx ELSE PutIn(With(idx, o, Without(idx[o], {p})), a, p, info)
  /\ UNCHANGED info
Drop(txns) ==
  LET P == {p \in DOMAIN info : info[p].txn \in txns} IN
  /\ info' = [p \in DOMAIN info \ P |-> info[p]]
  /\ idx' = [a \in DOMAIN idx |-> Without(idx[a], P)]

\* Each posting exactly once, in date order.
Places(p) == {<<a, i>> \in UNION {{a} \X (1..Len(idx[a])) : a \in DOMAIN idx} : idx[a][i] = p}
Once == /\ \A p \in DOMAIN info : Cardinality(Places(p)) = 1
        /\ \A a \in DOMAIN idx : \A i \in 1..Len(idx[a]) : idx[a][i] \in DOMAIN info
InOrder == \A a \in DOMAIN idx : \A i \in 1..(Len(idx[a]) - 1) : info[idx[a][i]].day <= info[idx[a][i + 1]].day
\* x precedes y in s
Before(s, x, y) == \E i, j \in 1..Len(s) : i < j /\ s[i] = x /\ s[j] = y
=============================================================================
