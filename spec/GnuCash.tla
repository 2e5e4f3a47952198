-------------------------------- MODULE GnuCash --------------------------------
(* gc2coin: a GnuCash book and the ledger written for it, part by part.             *)
(*   book.coms:   [id, dec (-1: none given), note]                                  *)
(*   book.accts:  [guid, name, type, com ("": none), parent ("": none), note, bank, acctid] *)
(*   book.prices: [com, cur, stamp, neg, num, den]                                  *)
(*   book.txns:   [stamp, code, desc, splits]                                       *)
(*   split:       [acct (guid), memo, neg, num, den]                                *)
(* Stamps begin with the date as YYYY-MM-DD; num and den are strings of digits.      *)
EXTENDS BigDec, TLC
CONSTANT DefaultCom

\* m \div k for a small number k.
DivSmall(m, k) ==
  LET step(acc, i) == LET t == acc.r * Base + m[Len(m) + 1 - i] IN [q |-> <<t \div k>> \o acc.q, r |-> t % k] IN
  NoTopZeros(FoldLeft(step, [q |-> <<>>, r |-> 0], [i \in 1..Len(m) |-> i]).q)
PowerOf10(den) == Ch(den, 1) = "1" /\ \A i \in 2..Len(den) : Ch(den, i) = "0"
\* The units of a commodity with dec decimals in num/den, what is less than a unit dropped.
Units(x, dec) ==
  LET n == Mag(x.num \o Repeat("0", dec)) IN
  Num(x.neg, IF PowerOf10(x.den) THEN CutDigits(n, Len(x.den) - 1) ELSE DivSmall(n, ValOf(x.den)))

Index(s, P(_)) == CHOOSE i \in 1..Len(s) : P(s[i])
DecOf(book, id) == LET d == book.coms[Index(book.coms, LAMBDA c : c.id = id)].dec IN IF d < 0 THEN 2 ELSE d
Acct(book, guid) == book.accts[Index(book.accts, LAMBDA a : a.guid = guid)]
ComOf(book, guid) == LET c == Acct(book, guid).com IN IF c = "" THEN DefaultCom ELSE c
NoSpaces(t) == FoldLeft(LAMBDA a, c : a \o IF c = " " THEN "" ELSE c, "", Chars(t))
PlainName(a) == IF a.name = "Root Account" THEN "Root" ELSE NoSpaces(a.name)
IsRoot(a) == a.type = "ROOT" \/ a.parent = ""
RECURSIVE FullName(_, _)
FullName(book, guid) ==
  LET a == Acct(book, guid) IN
  IF IsRoot(a) \/ IsRoot(Acct(book, a.parent)) THEN PlainName(a) ELSE FullName(book, a.parent) \o ":" \o PlainName(a)
DateOf(stamp) == SubSeq(stamp, 1, 4) \o "/" \o SubSeq(stamp, 6, 7) \o "/" \o SubSeq(stamp, 9, 10)
DayNum(date) == ValOf(SubSeq(date, 1, 4)) * 10000 + ValOf(SubSeq(date, 6, 7)) * 100 + ValOf(SubSeq(date, 9, 10))
YearOf(date) == SubSeq(date, 1, 4)

\* What is written of a commodity, an account, a price, and a transaction.
ComEntry(book, c) == [id |-> c.id, dec |-> DecOf(book, c.id), note |-> c.note]
AcctEntry(book, a) == [name |-> FullName(book, a.guid), com |-> ComOf(book, a.guid), note |-> a.note, bank |-> a.bank, acctid |-> a.acctid]
PriceEntry(book, p) == [date |-> DateOf(p.stamp), com |-> p.com, cur |-> p.cur, value |-> Printed(Units(p, DecOf(book, p.cur)), DecOf(book, p.cur))]
\* A description is followed by a note after the first " - ".
DashAt(t) == LET D == {i \in 1..Len(t) : ContainsAt(t, " - ", i)} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
Desc(t) == IF DashAt(t) = 0 THEN t ELSE SubSeq(t, 1, DashAt(t) - 1)
NotesIn(t) == LET n == IF DashAt(t) = 0 THEN "" ELSE From(t, DashAt(t) + 3) IN IF n = "" THEN <<>> ELSE <<n>>
PostEntry(book, s) ==
  LET com == ComOf(book, s.acct) IN
  [acct |-> FullName(book, s.acct), amount |-> Printed(Units(s, DecOf(book, com)), DecOf(book, com)), com |-> com, notes |-> IF s.memo = "" THEN <<>> ELSE <<s.memo>>]
TxnEntry(book, t) ==
  [date |-> DateOf(t.stamp), code |-> t.code, desc |-> Desc(t.desc), notes |-> NotesIn(t.desc),
   posts |-> [i \in 1..Len(t.splits) |-> PostEntry(book, t.splits[i])]]
Coms(book) == LET cs == SelectSeq(book.coms, LAMBDA c : c.note # "template") IN [i \in 1..Len(cs) |-> ComEntry(book, cs[i])]
Accts(book) == [i \in 1..Len(book.accts) |-> AcctEntry(book, book.accts[i])]
Prices(book) == [i \in 1..Len(book.prices) |-> PriceEntry(book, book.prices[i])]
Txns(book) == [i \in 1..Len(book.txns) |-> TxnEntry(book, book.txns[i])]

\* A transaction within accounts of one commodity has to add up to zero.
Balanced(book, t) ==
  LET cs == {ComOf(book, t.splits[i].acct) : i \in 1..Len(t.splits)} IN
  Cardinality(cs) = 1 => \A c \in cs : Total([i \in 1..Len(t.splits) |-> Units(t.splits[i], DecOf(book, c))]) = Zero
\* Every value written is one that a ledger has to accept.
AllFit(book) ==
  /\ \A i \in 1..Len(book.txns) : \A k \in 1..Len(book.txns[i].splits) : Fits(PostEntry(book, book.txns[i].splits[k]).amount)
  /\ \A i \in 1..Len(book.prices) : Fits(PriceEntry(book, book.prices[i]).value)
MustLoad(book) == AllFit(book) /\ \A i \in 1..Len(book.txns) : Balanced(book, book.txns[i])
\* What is in an account itself.
BalanceOf(book, guid) ==
  LET com == ComOf(book, guid)
      ss == FlattenSeqs([i \in 1..Len(book.txns) |-> SelectSeq(book.txns[i].splits, LAMBDA s : s.acct = guid)])
  IN Total([i \in 1..Len(ss) |-> Units(ss[i], DecOf(book, com))])

-----------------------------------------------------------------------------
(* The conversion: the parts of the book are written one by one, in the order of    *)
(* dates, into one file or into one for each year.                                  *)
VARIABLES book, todo, files         \* todo: what is not written yet; files: [name -> entries]
gvars == <<book, todo, files>>
Put(name, e) == files' = IF name \in DOMAIN files THEN [files EXCEPT ![name] = Append(@, e)] ELSE (name :> <<e>>) @@ files
FileFor(yearly, e, single, ext) == IF yearly THEN YearOf(e.date) \o ext ELSE single
Convert(b) == book' = b /\ todo' = [prices |-> 1..Len(b.prices), txns |-> 1..Len(b.txns)] /\ files' = [f \in {} |-> <<>>]
Earliest(S, ss) == {i \in S : \A j \in S : DayNum(DateOf(ss[i].stamp)) <= DayNum(DateOf(ss[j].stamp))}
WritePrice(yearly) ==
  \E i \in Earliest(todo.prices, book.prices) :
    LET e == PriceEntry(book, book.prices[i]) IN
    todo' = [todo EXCEPT !.prices = @ \ {i}] /\ Put(FileFor(yearly, e, "prices.coin", ".prices"), e) /\ UNCHANGED book
WriteTxn(yearly) ==
  /\ todo.prices = {}
  /\ \E i \in Earliest(todo.txns, book.txns) :
       LET e == TxnEntry(book, book.txns[i]) IN
       todo' = [todo EXCEPT !.txns = @ \ {i}] /\ Put(FileFor(yearly, e, "transactions.coin", ".coin"), e) /\ UNCHANGED book
Done == todo.prices = {} /\ todo.txns = {}

-----------------------------------------------------------------------------
\* The same as a property of what was written: files as a sequence of [name, items].
Ordered(items) == \A i \in 1..(Len(items) - 1) : DayNum(items[i].date) <= DayNum(items[i + 1].date)
HowOften(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : HowOften(a, a[i]) = HowOften(b, a[i])
AllItems(fs) == FlattenSeqs([i \in 1..Len(fs) |-> fs[i].items])
InPlace(yearly, fs, single, ext) ==
  \A i \in 1..Len(fs) : /\ Ordered(fs[i].items)
                        /\ \A k \in 1..Len(fs[i].items) : FileFor(yearly, fs[i].items[k], single, ext) = fs[i].name
                        /\ \A j \in 1..Len(fs) : fs[i].name = fs[j].name => i = j
Written(yearly, want, fs, single, ext) == SameItems(want, AllItems(fs)) /\ InPlace(yearly, fs, single, ext)
=============================================================================
