------------------------------ MODULE MC_Syntax ------------------------------
(* Lines of one kind built token by token.  An accepted line is accounted for by  *)
(* the fields of its entry: writing the fields down again gives the line up to     *)
(* blanks.                                                                       *)
EXTENDS Syntax, Json
CONSTANTS MaxTokens, Kind
VARIABLES toks
Day0 == 18500
Vocabulary ==
  IF Kind = "posting" THEN {"Assets:Bank", "Bank", ":Bank", "Bank:", "10", "-5", "1.5", ".5", "1.", "--5", "CAD", "ZZZ", "7up", "=", "; n", ";", "x"}
  ELSE IF Kind = "balance" THEN {"=", "==", "5", "-5.25", ".5", "1.", "+5", "CAD", "USD", "ZZZ", "; n", ";", "x"}
  ELSE IF Kind = "head" THEN {"2020/03/04", "20/3/4", "2020/3", "05/3/4", "03/4", "2020/02/30", "2020/3/4+1m", "+3d", "(12)", "(a b)", "()", "Loeb", "(", "= 5", "; n", ";", ";#t: v"}
  ELSE IF Kind = "price" THEN {"P", "2020/3", "+2m", "USD", "CAD", "ZZ9", "7up", "1.35", "-2", "1,5", ".5", "$", "; c", ";", "x"}
  ELSE IF Kind = "account" THEN {"account", "accounts", "A:New", "New", "A::New", "9New", ":New", "New:", "A:9", "; c", "x"}
  ELSE IF Kind = "attr" THEN {"note", "commodity", "closed", "ofx_bankid", "ofx_acctid", "csv_acctid", "notes", "code", "USD", "ZZZ", "2020/03/04", "2020/02/30", "12", "a_1", "; c", "x y"}
  ELSE IF Kind = "commodity" THEN {"commodity", "Commodity", "EUR", "X1", "1X", "a_b", "a-b", "; c", "x"}
  ELSE {"note", "format", "symbol", "nomarket", "default", "defaults", "alias", "1.00", "1", "1.", "EUR", "E.T", "; c", "x y"}
Lead == IF Kind = "balance" THEN "  Bank 10 CAD " ELSE IF Kind = "price" THEN "P 2020/03/04 " ELSE IF Kind \in {"posting", "attr", "cattr"} THEN "  " ELSE ""
Line == Lead \o Join(toks, " ")

Init == toks = <<>>
Next == Len(toks) < MaxTokens /\ \E t \in Vocabulary : toks' = Append(toks, t)
MCSpec == Init /\ [][Next]_toks

Parse(s) ==
  IF s = "" THEN Bad
  ELSE IF Kind \in {"posting", "balance"} THEN PostingLine(s)
  ELSE IF Kind = "head" THEN (IF Ch(s, 1) \in DigitChars THEN TxnLine(s, Day0) ELSE Bad)
  ELSE IF Kind = "price" THEN PriceLine(s, Day0)
  ELSE IF Kind = "account" THEN AccountLine(s)
  ELSE IF Kind = "attr" THEN AccountAttr(s, AccountLine("account A").e, Day0)
  ELSE IF Kind = "commodity" THEN CommodityLine(s)
  ELSE CommodityAttr(s, CommodityLine("commodity EUR").e)

Squash(s) == FoldLeft(LAMBDA acc, c : IF IsBlank(c) THEN acc ELSE acc \o c, "", Chars(s))
BeforeSemi(s) == LET C == {k \in 1..Len(s) : Ch(s, k) = ";"} IN IF C = {} THEN s ELSE SubSeq(s, 1, (CHOOSE k \in C : \A m \in C : k <= m) - 1)
AmtWritten(a) == IF ~a.has THEN "" ELSE (IF a.neg THEN "-" ELSE "") \o a.int \o (IF a.frac = "" THEN "" ELSE "." \o a.frac) \o a.com
NoteWritten(ns) == IF ns = <<>> THEN "" ELSE ";" \o ns[1]
\* The date as written: only its meaning is kept.
DateWritten(s, from) == SubSeq(s, from, DateEnd(s, from) - 1)

Written(s, e) ==
  IF Kind \in {"posting", "balance"} THEN e.acct \o AmtWritten(e.amt) \o (IF e.bal.has THEN "=" \o AmtWritten(e.bal) ELSE "") \o NoteWritten(e.notes)
  ELSE IF Kind = "head" THEN DateWritten(s, 1) \o (IF e.code = "" THEN "" ELSE "(" \o e.code \o ")") \o e.desc \o NoteWritten(e.notes)
  ELSE IF Kind = "price" THEN "P" \o DateWritten(s, Ws(s, 2)) \o e.com \o AmtWritten(e.amt)
  ELSE IF Kind = "account" THEN "account" \o e.name
  ELSE IF Kind = "commodity" THEN "commodity" \o e.id
  ELSE IF Kind = "attr" THEN
    IF e.desc # "" THEN "note" \o e.desc ELSE IF e.com # "" THEN "commodity" \o e.com
    ELSE IF e.closed # "" THEN "closed" \o DateWritten(s, Ws(s, Ws(s, 1) + 6)) ELSE BeforeSemi(s)
  ELSE IF e.name # "" THEN "note" \o e.name ELSE IF e.sym # "" THEN "symbol" \o e.sym
  ELSE IF e.nomarket THEN "nomarket" ELSE IF e.default THEN "default" ELSE BeforeSemi(s)
\* Comments are no fields: a posting's or transaction's note is.
Significant(s) == IF Kind \in {"posting", "balance", "head"} \/ (Kind \in {"attr", "cattr"} /\ StartsWith(s, "  note ")) THEN s ELSE BeforeSemi(s)
DropEmptyNote(s) == IF EndsWith(s, ";") THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* One scan of the line is enough for everything below.
NothingLost ==
  LET s == Line r == Parse(s) IN
  r.ok => Squash(DropEmptyNote(Squash(Significant(s)))) = Squash(DropEmptyNote(Squash(Written(s, r.e))))
\* More blanks change nothing (but within descriptions and notes, which the tokens keep apart by one space).
Stable ==
  LET a == Parse(Line) b == Parse(Lead \o Join(toks, "  ")) IN
  /\ a.ok = b.ok
  /\ (a.ok /\ Kind \in {"posting", "balance", "price", "account", "commodity"}) => Squash(Written(Line, a.e)) = Squash(Written(Line, b.e))
\* Rejected lines that are one token away from an accepted one.
Near(s) == \E i \in 1..Len(toks) : Parse(Lead \o Join(SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks)), " ")).ok
Emitted ==
  LET ok == Parse(Line).ok IN
  (toks # <<>> /\ (ok \/ Near(Line))) => PrintT("SCN " \o ToJson([line |-> Line, ok |-> ok]))
=============================================================================
