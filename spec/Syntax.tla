-------------------------------- MODULE Syntax --------------------------------
(* How ledger text is read: an explicit reader that goes over the lines of a    *)
(* file and turns them into entries, or rejects the file.  Every line is either  *)
(* fully accounted for by the fields of an entry or makes the file unreadable.   *)
(* Amounts are kept as written: sign, digits before and after the point,         *)
(* commodity.                                                                   *)
EXTENDS Names, Tags, DateExprs

-----------------------------------------------------------------------------
(* Scanning: positions in a line; 0 stands for "not there".                     *)
RECURSIVE Ws(_, _)            \* the first position from i on that is no blank
Ws(s, i) == IF i <= Len(s) /\ IsBlank(Ch(s, i)) THEN Ws(s, i + 1) ELSE i
RECURSIVE While(_, _, _)      \* the first position from i on whose character is not in C
While(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN While(s, i + 1, C) ELSE i
AtEnd(s, i) == i > Len(s)
IsAt(s, i, t) == i >= 1 /\ ContainsAt(s, t, i)
\* At least one blank from i on; the position after the blanks.
Gap(s, i) == LET j == Ws(s, i) IN IF i >= 1 /\ j > i THEN j ELSE 0
DigitChars == DOMAIN DigitVal
PartChars == WordChars \cup {"/", "-"}
Blank(s) == Ws(s, 1) > Len(s)

\* Commodity id: a letter, then letters, digits and _.
IdEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Letters THEN While(s, i + 1, WordChars) ELSE 0
\* Account expression or name: parts separated by single colons.
RECURSIVE AcctEnd(_, _)
AcctEnd(s, i) ==
  IF ~(i >= 1 /\ i <= Len(s) /\ Ch(s, i) \in Letters) THEN 0
  ELSE LET j == While(s, i + 1, PartChars) IN
       IF IsAt(s, j, ":") /\ AcctEnd(s, j + 1) > 0 THEN AcctEnd(s, j + 1) ELSE j

NoAmt == [has |-> FALSE, neg |-> FALSE, int |-> "", frac |-> "", com |-> ""]
NotThere == [ok |-> FALSE, next |-> 0, a |-> NoAmt]
\* An amount: -? digits (. digits)? blanks id.
AmountAt(s, i) ==
  IF i < 1 THEN NotThere ELSE
  LET neg == IsAt(s, i, "-")
      a == IF neg THEN i + 1 ELSE i
      b == While(s, a, DigitChars)
      dot == IsAt(s, b, ".")
      c == IF dot THEN While(s, b + 1, DigitChars) ELSE b
      g == Gap(s, c)
      e == IF g > 0 THEN IdEnd(s, g) ELSE 0
  IN
  IF b = a \/ (dot /\ c = b + 1) \/ e = 0 THEN NotThere
  ELSE [ok |-> TRUE, next |-> e,
        a |-> [has |-> TRUE, neg |-> neg, int |-> SubSeq(s, a, b - 1),
               frac |-> IF dot THEN SubSeq(s, b + 1, c - 1) ELSE "", com |-> SubSeq(s, g, e - 1)]]

\* What may follow an entry's fields: nothing or a comment.
CommentOrEnd(s, i) == i >= 1 /\ LET j == Ws(s, i) IN AtEnd(s, j) \/ Ch(s, j) = ";"
\* The same where the comment is a note; [ok, notes].
NoteAt(s, i) ==
  IF i < 1 THEN [ok |-> FALSE, notes |-> <<>>] ELSE
  LET j == Ws(s, i) IN
  IF AtEnd(s, j) THEN [ok |-> TRUE, notes |-> <<>>]
  ELSE IF Ch(s, j) # ";" THEN [ok |-> FALSE, notes |-> <<>>]
  ELSE LET n == TrimL(From(s, j + 1)) IN [ok |-> TRUE, notes |-> IF n = "" THEN <<>> ELSE <<n>>]

-----------------------------------------------------------------------------
(* Lines.                                                                      *)

Bad == [ok |-> FALSE]
\* A word, blanks and the rest of the line.
AfterWord(s, i, w) == IF IsAt(s, i, w) THEN Gap(s, i + Len(w)) ELSE 0

CommodityLine(s) ==
  LET i == AfterWord(s, 1, "commodity") e == IF i > 0 THEN IdEnd(s, i) ELSE 0 IN
  IF e = 0 \/ ~CommentOrEnd(s, e) THEN Bad
  ELSE [ok |-> TRUE, e |-> [id |-> SubSeq(s, i, e - 1), dec |-> 2, name |-> "", sym |-> "", nomarket |-> FALSE, default |-> FALSE]]

SymChars == WordChars \cup {"."}
\* One attribute of a commodity.
CommodityAttr(s, c) ==
  LET i == Ws(s, 1)
      n == AfterWord(s, i, "note")
      f == AfterWord(s, i, "format")
      y == AfterWord(s, i, "symbol")
      am == AmountAt(s, f)
      ye == IF y > 0 THEN While(s, y, SymChars) ELSE 0
  IN
  IF n > 0 THEN IF AtEnd(s, n) THEN Bad ELSE [ok |-> TRUE, e |-> [c EXCEPT !.name = From(s, n)]]
  ELSE IF f > 0 THEN
    IF ~am.ok \/ ~CommentOrEnd(s, am.next) THEN Bad ELSE [ok |-> TRUE, e |-> [c EXCEPT !.dec = Len(am.a.frac)]]
  ELSE IF y > 0 THEN
    IF ye = y \/ ~CommentOrEnd(s, ye) THEN Bad ELSE [ok |-> TRUE, e |-> [c EXCEPT !.sym = SubSeq(s, y, ye - 1)]]
  ELSE IF IsAt(s, i, "nomarket") /\ CommentOrEnd(s, i + 8) THEN [ok |-> TRUE, e |-> [c EXCEPT !.nomarket = TRUE]]
  ELSE IF IsAt(s, i, "default") /\ CommentOrEnd(s, i + 7) THEN [ok |-> TRUE, e |-> [c EXCEPT !.default = TRUE]]
  ELSE Bad

AccountLine(s) ==
  LET i == AfterWord(s, 1, "account") e == AcctEnd(s, i) IN
  IF e = 0 \/ ~CommentOrEnd(s, e) THEN Bad
  ELSE [ok |-> TRUE, e |-> [name |-> SubSeq(s, i, e - 1), com |-> "", closed |-> "", desc |-> ""]]

AccountAttr(s, a, today) ==
  LET i == Ws(s, 1)
      n == AfterWord(s, i, "note")
      c == AfterWord(s, i, "commodity")
      d == AfterWord(s, i, "closed")
      b == AfterWord(s, i, "ofx_bankid")
      o == AfterWord(s, i, "ofx_acctid")
      v == AfterWord(s, i, "csv_acctid")
      ce == IF c > 0 THEN IdEnd(s, c) ELSE 0
      de == IF d > 0 THEN DateEnd(s, d) ELSE 0
      Plain(k, C) == LET e == While(s, k, C) IN IF e = k \/ ~CommentOrEnd(s, e) THEN Bad ELSE [ok |-> TRUE, e |-> a]
  IN
  IF n > 0 THEN IF AtEnd(s, n) THEN Bad ELSE [ok |-> TRUE, e |-> [a EXCEPT !.desc = From(s, n)]]
  ELSE IF c > 0 THEN IF ce = 0 \/ ~CommentOrEnd(s, ce) THEN Bad ELSE [ok |-> TRUE, e |-> [a EXCEPT !.com = SubSeq(s, c, ce - 1)]]
  ELSE IF d > 0 THEN
    IF de = 0 \/ ~CommentOrEnd(s, de) THEN Bad
    ELSE LET dt == DateOf(SubSeq(s, d, de - 1), today) IN
         IF dt.ok THEN [ok |-> TRUE, e |-> [a EXCEPT !.closed = DateText(dt.day)]] ELSE Bad
  ELSE IF b > 0 THEN Plain(b, DigitChars)
  ELSE IF o > 0 THEN Plain(o, DigitChars)
  ELSE IF v > 0 THEN Plain(v, WordChars)
  ELSE Bad

PriceLine(s, today) ==
  LET d == AfterWord(s, 1, "P")
      de == IF d > 0 THEN DateEnd(s, d) ELSE 0
      c == IF de > d THEN Gap(s, de) ELSE 0
      ce == IF c > 0 THEN IdEnd(s, c) ELSE 0
      am == AmountAt(s, IF ce > 0 THEN Gap(s, ce) ELSE 0)
      dt == IF de > d THEN DateOf(SubSeq(s, d, de - 1), today) ELSE NoDate
  IN
  IF ~am.ok \/ ~CommentOrEnd(s, am.next) \/ ~dt.ok THEN Bad
  ELSE [ok |-> TRUE, e |-> [day |-> dt.day, com |-> SubSeq(s, c, ce - 1), cur |-> am.a.com, amt |-> am.a]]

\* date, code in parentheses, description up to ;, note
TxnLine(s, today) ==
  LET de == DateEnd(s, 1)
      dt == IF de > 1 THEN DateOf(SubSeq(s, 1, de - 1), today) ELSE NoDate
      g == Gap(s, de)
      cb == IF g > 0 /\ IsAt(s, g, "(") THEN g + 1 ELSE 0
      ce == IF cb > 0 THEN While(s, cb, WordChars) ELSE 0
      coded == ce > cb /\ IsAt(s, ce, ")") /\ (AtEnd(s, ce + 1) \/ Ch(s, ce + 1) \in {" ", "\t", ";"})
      rest == IF coded THEN ce + 1 ELSE de
      semi == LET C == {k \in rest..Len(s) : Ch(s, k) = ";"} IN IF C = {} THEN Len(s) + 1 ELSE CHOOSE k \in C : \A m \in C : k <= m
      raw == SubSeq(s, rest, semi - 1)
      note == NoteAt(s, semi)
  IN
  IF de <= 1 \/ ~dt.ok \/ (raw # "" /\ ~IsBlank(Ch(raw, 1))) THEN Bad
  ELSE [ok |-> TRUE, e |-> [day |-> dt.day, code |-> IF coded THEN SubSeq(s, cb, ce - 1) ELSE "", desc |-> Trim(raw),
                             notes |-> note.notes, posts |-> <<>>]]

\* A note line within a transaction: the text after ; and at most one space.
IsNoteLine(s) == LET i == Gap(s, 1) IN i > 0 /\ IsAt(s, i, ";")
NoteText(s) == LET i == Gap(s, 1) IN IF IsAt(s, i + 1, " ") THEN From(s, i + 2) ELSE From(s, i + 1)

PostingLine(s) ==
  LET i == Gap(s, 1)
      e == AcctEnd(s, i)
      am == AmountAt(s, IF e > 0 THEN Gap(s, e) ELSE 0)
      eq == IF am.ok THEN Gap(s, am.next) ELSE 0
      withBal == eq > 0 /\ IsAt(s, eq, "=")
      bl == IF withBal THEN AmountAt(s, Gap(s, eq + 1)) ELSE NotThere
      end == IF e = 0 THEN 0 ELSE IF ~am.ok THEN e ELSE IF withBal THEN bl.next ELSE am.next
      note == NoteAt(s, end)
  IN
  IF e = 0 \/ end = 0 \/ ~note.ok THEN Bad
  ELSE [ok |-> TRUE, e |-> [acct |-> SubSeq(s, i, e - 1), amt |-> am.a, bal |-> bl.a, notes |-> note.notes]]

IncludeLine(s) ==
  LET i == AfterWord(s, 1, "include") IN
  IF i = 0 \/ AtEnd(s, i) THEN Bad ELSE [ok |-> TRUE, e |-> [path |-> From(s, i)]]
TestLine(s) ==
  LET i == AfterWord(s, 1, "test") IN
  IF i = 0 \/ AtEnd(s, i) THEN Bad ELSE [ok |-> TRUE, e |-> [cmd |-> From(s, i), result |-> <<>>]]

-----------------------------------------------------------------------------
(* The reader: one step per line.  st is [ok, mode, cur, out, n]: mode tells     *)
(* which entry is being read (cur), out the entries finished so far.             *)

StartState == [ok |-> TRUE, mode |-> "none", cur |-> Bad, at |-> 0, out |-> <<>>, n |-> 0]
Finish(st) == IF st.mode = "none" THEN st
              ELSE [st EXCEPT !.mode = "none", !.out = Append(@, [kind |-> st.mode, line |-> st.at, e |-> st.cur])]
Begun(st, kind, r) == IF r.ok THEN [st EXCEPT !.mode = kind, !.cur = r.e, !.at = st.n] ELSE [st EXCEPT !.ok = FALSE]

\* A line that starts at the first column and is not part of the entry before.
TopLine(st, s, today) ==
  IF Blank(s) \/ Ch(s, 1) \in {";", "#", "%", "|", "*"} THEN st
  ELSE IF StartsWith(s, "include") THEN LET r == Begun(st, "include", IncludeLine(s)) IN IF r.ok THEN Finish(r) ELSE r
  ELSE IF StartsWith(s, "account") THEN Begun(st, "account", AccountLine(s))
  ELSE IF StartsWith(s, "commodity") THEN Begun(st, "commodity", CommodityLine(s))
  ELSE IF StartsWith(s, "test") THEN Begun(st, "test", TestLine(s))
  ELSE IF StartsWith(s, "P") THEN LET r == Begun(st, "price", PriceLine(s, today)) IN IF r.ok THEN Finish(r) ELSE r
  ELSE IF Ch(s, 1) \in DigitChars THEN Begun(st, "txn", TxnLine(s, today))
  ELSE [st EXCEPT !.ok = FALSE]

AddNote(t, n) ==
  IF t.posts = <<>> THEN [t EXCEPT !.notes = Append(@, n)]
  ELSE [t EXCEPT !.posts[Len(t.posts)].notes = Append(@, n)]

ReadLine(st0, s, today) ==
  LET st == [st0 EXCEPT !.n = @ + 1] IN
  IF ~st.ok THEN st
  ELSE IF st.mode = "test" THEN
    IF Trim(s) = "end test" THEN Finish(st) ELSE [st EXCEPT !.cur.result = Append(@, s)]
  ELSE IF st.mode = "none" \/ Blank(s) \/ ~IsBlank(Ch(s, 1)) THEN TopLine(Finish(st), s, today)
  ELSE IF st.mode = "txn" THEN
    IF IsNoteLine(s) THEN [st EXCEPT !.cur = AddNote(@, NoteText(s))]
    ELSE LET r == PostingLine(s) IN
         IF r.ok THEN [st EXCEPT !.cur.posts = Append(@, r.e)] ELSE [st EXCEPT !.ok = FALSE]
  ELSE LET r == IF st.mode = "commodity" THEN CommodityAttr(s, st.cur) ELSE AccountAttr(s, st.cur, today) IN
       IF r.ok THEN [st EXCEPT !.cur = r.e] ELSE [st EXCEPT !.ok = FALSE]

\* The entries of a text; [ok, out].  A test clause that does not end is not readable.
ReadText(lines, today) ==
  LET f == FoldLeft(LAMBDA st, s : ReadLine(st, s, today), StartState, lines) IN
  IF ~f.ok \/ f.mode = "test" THEN [ok |-> FALSE, out |-> <<>>] ELSE [ok |-> TRUE, out |-> Finish(f).out]

-----------------------------------------------------------------------------
(* Amounts as text: exact whatever their size.                                  *)

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN StripZeros(From(d, 2)) ELSE d
\* The stated value in the precision of its commodity: the digits beyond it are dropped.
Canonical(a, dec) ==
  LET kept == IF Len(a.frac) >= dec THEN SubSeq(a.frac, 1, dec) ELSE a.frac \o Repeat("0", dec - Len(a.frac))
      int == StripZeros(a.int)
      zero == \A i \in 1..Len(int \o kept) : Ch(int \o kept, i) = "0"
  IN (IF a.neg /\ ~zero THEN "-" ELSE "") \o int \o (IF dec > 0 THEN "." \o kept ELSE "")
\* Minor units, for amounts within TLC's integers.
Units(a, dec) ==
  LET kept == IF Len(a.frac) >= dec THEN SubSeq(a.frac, 1, dec) ELSE a.frac \o Repeat("0", dec - Len(a.frac))
      v == ValOf(StripZeros(a.int \o kept)) IN IF a.neg THEN -v ELSE v

=============================================================================
