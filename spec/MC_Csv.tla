-------------------------------- MODULE MC_Csv --------------------------------
(* Sources with all combinations of a few definitions, account trees and records.    *)
EXTENDS CsvImport, Json
CONSTANT MaxRows

VARIABLES defs, rows
vars == <<ivars, defs, rows>>
MCNames == {"A", "A:U", "A:V", "E", "E:U", "Unbalanced", "Root"}
Lit(t) == [k |-> "lit", t |-> t, neg |-> FALSE, min |-> 1, max |-> 1, n |-> 0]
Set(t, lo, hi) == [k |-> "set", t |-> t, neg |-> FALSE, min |-> lo, max |-> hi, n |-> 0]
Open == [k |-> "open", t |-> "", neg |-> FALSE, min |-> 1, max |-> 1, n |-> 1]
Close == [Open EXCEPT !.k = "close"]
Rx(g, alt) == [fold |-> FALSE, groups |-> g, alts |-> <<alt>>]
None == [fold |-> FALSE, groups |-> 0, alts |-> <<<<>>>>]
Col(name, c) == [name |-> name, k |-> "col", col |-> c, tmpl |-> <<>>, rex |-> None, cond |-> <<>>]
Ext(name, c, tmpl, rex) == [name |-> name, k |-> "ext", col |-> c, tmpl |-> tmpl, rex |-> rex, cond |-> <<>>]
Der(name, tmpl, cond) == [name |-> name, k |-> "der", col |-> 0, tmpl |-> tmpl, rex |-> None, cond |-> cond]
T(t) == [k |-> "lit", t |-> t, n |-> 0]
G(n) == [k |-> "grp", t |-> "", n |-> n]
F(t) == [k |-> "fld", t |-> t, n |-> 0]
\* Columns: 0 date, 1 description, 2 amount, 3 other amount, 4 commodity, 5 quantity
Cond == <<[field |-> "description", rex |-> Rx(0, <<Lit("Buy")>>)]>>
AmountDefs == {<<Col("amount", 2)>>, <<Ext("amount", 2, <<T("-"), G(1)>>, Rx(1, <<Open, Set(Digits, 1, -1), Close>>)), Col("amount", 3)>>,
               <<Col("amount", 3), Der("amount", <<T("9")>>, Cond), Col("amount", 2)>>}
CurrencyDefs == {<<>>, <<Der("currency", <<T("USD")>>, <<>>)>>}
TradeDefs == {<<>>, <<Col("symbol", 4), Col("quantity", 5)>>, <<Col("q", 5), Der("symbol", <<T("VXF")>>, Cond), Der("quantity", <<F("q")>>, <<>>)>>}
Cells2 == {"5", ""}   Cells3 == {"", "-7"}  Descs == {"Buy", "Drop x"}  Trade == {<<"VXF", "-3">>, <<"VXF", "2">>, <<"", "2">>}
RowSet == {<<d, x, a, b, t[1], t[2]>> : d \in {"2019/01/05", "2019/01/04"}, x \in Descs, a \in Cells2, b \in Cells3, t \in Trade}
Accts(u, v, e) == <<[name |-> "A", com |-> "", ofx |-> ""], [name |-> "A:U", com |-> u, ofx |-> ""], [name |-> "A:V", com |-> v, ofx |-> ""],
                    [name |-> "E", com |-> "", ofx |-> ""], [name |-> "E:U", com |-> e, ofx |-> ""]>>
RuleLines == <<[k |-> "acct", name |-> "1", acct |-> "A"],
               [k |-> "rule", drop |-> FALSE, acct |-> "E", any |-> FALSE, rex |-> Rx(0, <<Lit("Buy")>>)],
               [k |-> "rule", drop |-> TRUE, acct |-> "--", any |-> FALSE, rex |-> Rx(0, <<Lit("Drop")>>)]>>
Coms == <<[id |-> "CAD", sym |-> "CD", dec |-> 2], [id |-> "USD", sym |-> "UD", dec |-> 2], [id |-> "VXF", sym |-> "Vx", dec |-> 3]>>
Init ==
  /\ accts \in {Accts(u, v, e) : u \in {"USD", "CAD"}, v \in {"VXF", ""}, e \in {"USD", ""}}
  /\ coms = Coms /\ rules = ReadRules(MCNames, RuleLines) /\ ledger = <<>>
  /\ \E a \in AmountDefs, c \in CurrencyDefs, t \in TradeDefs :
       defs = <<Der("account", <<T("1")>>, <<>>), Col("date", 0), Col("description", 1)>> \o a \o c \o t
  /\ rows = <<>>
Next == Len(rows) < MaxRows /\ \E r \in RowSet : rows' = Append(rows, r) /\ UNCHANGED <<ivars, defs>>
MCSpec == Init /\ [][Next]_vars

Res == Outcome(defs, 0, <<rows>>)
\* Two postings of opposite signs; the same amount unless there is a conversion.
TwoOpposite == LET r == Res IN r.ok => \A i \in 1..Len(r.out) : LET p == r.out[i].posts IN
  /\ Len(p) = 2 /\ (p[1].amt.m = <<>> \/ p[2].amt.m = <<>> \/ p[1].amt.neg # p[2].amt.neg)
  /\ p[1].amt.m # <<>> => ~p[1].amt.neg \/ p[2].amt.m = <<>>
  /\ p[1].com = p[2].com => p[1].amt = Neg(p[2].amt) \/ \E j \in 1..Len(rows) : FieldValue(defs, "symbol", rows[j]) = p[1].com
\* An amount is posted to an account of its commodity, or to Unbalanced.
OwnCommodity == LET r == Res IN r.ok => \A i \in 1..Len(r.out) : \A k \in 1..2 :
  LET p == r.out[i].posts[k] IN p.acct = "Unbalanced" \/ (ComOf(p.acct) = p.com /\ (p.acct \in {"A", "E"} \/ IsUnder(p.acct, "A") \/ IsUnder(p.acct, "E")))
InOrder == LET r == Res IN r.ok => \A i \in 1..(Len(r.out) - 1) : r.out[i].date <= r.out[i + 1].date
Emitted == (Len(rows) = MaxRows) => PrintT("SCN " \o ToJson([accts |-> accts, coms |-> Coms, rules |-> RuleLines, defs |-> defs, skip |-> 0, files |-> <<rows>>]))
=============================================================================
