------------------------------ MODULE Rewriting ------------------------------
(* What formatting and modifying a file of transactions make of it.  The file's  *)
(* transactions have been resolved (LoadFile); what is written is judged by       *)
(* reading it the way Syntax reads ledger text.                                  *)
EXTENDS LedgerText

\* A transaction as text is to show it: everything stated, accounts in full, notes up to leading blanks.
PostForm(p) ==
  [acct |-> p.acct, amt |-> Text(p.q, p.com) \o " " \o p.com,
   bal |-> IF p.asserted THEN Text(p.bal, p.balcom) \o " " \o p.balcom ELSE "", notes |-> MapSeq(p.notes, TrimL)]
TxnForm(t, squeeze) ==
  [day |-> t.day, code |-> t.code, desc |-> IF squeeze THEN Squeeze(t.desc) ELSE t.desc,
   notes |-> IF squeeze THEN MapSeq(t.notes, Squeeze) ELSE MapSeq(t.notes, TrimL),
   posts |-> MapSeq(t.posts, PostForm)]
\* The transactions of a formatted file, in order.
Formatted(L, squeeze) == [i \in 1..Len(L.order) |-> TxnForm(L.txns[L.order[i]], squeeze)]

\* The same of a text.
Written(a) == (IF a.neg THEN "-" ELSE "") \o a.int \o (IF a.frac = "" THEN "" ELSE "." \o a.frac) \o " " \o a.com
PostRead(p) ==
  [acct |-> p.acct, amt |-> IF p.amt.has THEN Written(p.amt) ELSE "", bal |-> IF p.bal.has THEN Written(p.bal) ELSE "",
   notes |-> MapSeq(p.notes, TrimL)]
TxnRead(t) == [day |-> t.day, code |-> t.code, desc |-> t.desc, notes |-> MapSeq(t.notes, TrimL), posts |-> MapSeq(t.posts, PostRead)]
\* [ok, txns]: a text that holds nothing but transactions.
ReadBack(lines, today) ==
  LET r == ReadText(lines, today) IN
  IF ~r.ok \/ \E i \in 1..Len(r.out) : r.out[i].kind # "txn" THEN [ok |-> FALSE, txns |-> <<>>]
  ELSE [ok |-> TRUE, txns |-> [i \in 1..Len(r.out) |-> TxnRead(r.out[i].e)]]
TagsForm(t) == [tags |-> TagsOf(t.notes), posts |-> [k \in 1..Len(t.posts) |-> TagsOf(t.posts[k].notes)]]

\* Lines up to the leading blanks of notes.
SemiAt(s) == LET C == {k \in 1..Len(s) : Ch(s, k) = ";"} IN IF C = {} THEN 0 ELSE CHOOSE k \in C : \A m \in C : k <= m
UpToNoteBlanks(s) == LET k == SemiAt(s) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k) \o TrimL(From(s, k + 1))
SameText(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : UpToNoteBlanks(a[i]) = UpToNoteBlanks(b[i])
\* Lines without the quotes around commodity ids that the ledger program asks for.
Unquoted(s) == FoldLeft(LAMBDA acc, c : IF c = "\"" THEN acc ELSE acc \o c, "", Chars(s))

-----------------------------------------------------------------------------
(* Modify: m is [hasp, p, hast, t, hasa, a, haspt, pt, to, ptags, ttags]: the      *)
(* selection by payee, transaction tag, account and posting tag, the account to    *)
(* move to ("" for none) and the notes to add tags from (<<>> for none).           *)

FromAccount(L, m) == Denotes(L.names, m.a)
ToAccount(L, m) == Denotes(L.names, m.to)
ModifyOk(L, m) ==
  /\ m.hasa => FromAccount(L, m) # ""
  /\ m.to # "" => ToAccount(L, m) # ""
  /\ \A i \in 1..Len(m.ptags) : TagsFrom(m.ptags[i], 1) # <<>>
  /\ \A i \in 1..Len(m.ttags) : TagsFrom(m.ttags[i], 1) # <<>>
SelectsTxn(m, t) == (m.hasp => RexMatches(m.p, TRUE, t.desc)) /\ (m.hast => TagExprSelects(m.t, t.tags))
SelectsPost(L, m, p) == (m.hasa /\ p.acct = FromAccount(L, m)) \/ (m.haspt /\ TagExprSelects(m.pt, p.tags))
SelectsPostOf(L, m, t, k) == SelectsTxn(m, t) /\ SelectsPost(L, m, t.posts[k])
TagsTxn(L, m, t) == m.ttags # <<>> /\ SelectsTxn(m, t) /\ (m.hasa => \E k \in 1..Len(t.posts) : t.posts[k].acct = FromAccount(L, m))
TagsPost(L, m, t, k) == m.ptags # <<>> /\ SelectsPostOf(L, m, t, k)
Moves(L, m, t, k) == m.to # "" /\ SelectsPostOf(L, m, t, k)
Changes(L, m, t) == TagsTxn(L, m, t) \/ \E k \in 1..Len(t.posts) : TagsPost(L, m, t, k) \/ Moves(L, m, t, k)
\* Whether a posting that is already in its new account counts as changed is left open.
MovesNowhere(L, m) == m.to # "" /\ \E i \in 1..Len(L.txns) : LET t == L.txns[i] IN
  /\ ~TagsTxn(L, m, t)
  /\ \E k \in 1..Len(t.posts) : Moves(L, m, t, k) /\ t.posts[k].acct = ToAccount(L, m)
NumberChanged(L, m) == Cardinality({i \in 1..Len(L.txns) : Changes(L, m, L.txns[i])})

\* What a transaction is to look like, but for its notes.
WithoutNotes(t) == [day |-> t.day, code |-> t.code, desc |-> t.desc,
                    posts |-> [k \in 1..Len(t.posts) |-> [acct |-> t.posts[k].acct, amt |-> t.posts[k].amt, bal |-> t.posts[k].bal]]]
Modified(L, m) ==
  [i \in 1..Len(L.order) |->
    LET t == L.txns[L.order[i]] f == TxnForm(t, FALSE) IN
    [f EXCEPT !.posts = [k \in 1..Len(f.posts) |-> IF Moves(L, m, t, k) THEN [f.posts[k] EXCEPT !.acct = ToAccount(L, m)] ELSE f.posts[k]]]]
\* Tags that are there afterwards.
AddedTags(notes, add) == TagsWith(TagsOf(notes), TagsOf(add))
ModifiedTags(L, m) ==
  [i \in 1..Len(L.order) |->
    LET t == L.txns[L.order[i]] IN
    [tags |-> IF TagsTxn(L, m, t) THEN AddedTags(t.notes, m.ttags) ELSE t.tags,
     posts |-> [k \in 1..Len(t.posts) |-> IF TagsPost(L, m, t, k) THEN AddedTags(t.posts[k].notes, m.ptags) ELSE t.posts[k].tags]]]
\* Notes stay what they are, but for tags added at the end of one or as one more.
NotesKept(old, new, added) ==
  IF ~added THEN new = old
  ELSE /\ Len(new) \in {Len(old), Len(old) + 1}
       /\ \A j \in 1..Len(old) : StartsWith(new[j], old[j])
       /\ Cardinality({j \in 1..Len(new) : j > Len(old) \/ new[j] # old[j]}) <= 1
AllNotesKept(L, m, read) ==
  Len(read) = Len(L.order) =>
  \A i \in 1..Len(read) :
    LET t == L.txns[L.order[i]] f == TxnForm(t, FALSE) IN
    /\ NotesKept(f.notes, read[i].notes, TagsTxn(L, m, t))
    /\ Len(read[i].posts) = Len(f.posts) =>
         \A k \in 1..Len(f.posts) : NotesKept(f.posts[k].notes, read[i].posts[k].notes, TagsPost(L, m, t, k))
=============================================================================
