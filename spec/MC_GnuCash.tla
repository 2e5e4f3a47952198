------------------------------- MODULE MC_GnuCash -------------------------------
(* All conversions of small books: accounts in any order in the file, transactions   *)
(* over several days, years and time zones, splits with amounts that do and do not   *)
(* fit the commodity.                                                                *)
EXTENDS GnuCash, Json
CONSTANT MaxTxns
VARIABLES yearly, phase
vars == <<gvars, yearly, phase>>

Stamps == {"2019-12-31 23:30:00 -0500", "2020-01-01 00:30:00 +0900", "2020-01-01 10:59:00 +0000"}
A(g, n, t, c, p) == [guid |-> g, name |-> n, type |-> t, com |-> c, parent |-> p, note |-> "", bank |-> "", acctid |-> ""]
Root == A("r", "Root Account", "ROOT", "", "")
AccountSets == {<<Root, A("a", "Top", "ASSET", "CAD", "r"), A("b", "My Bank", "BANK", "CAD", "a")>>,
                <<A("b", "My Bank", "BANK", "VXF", "a"), A("a", "Top", "ASSET", "CAD", "r"), Root>>}
Com(id, d) == [id |-> id, dec |-> d, note |-> ""]
Amts == {[neg |-> FALSE, num |-> "150", den |-> "100"], [neg |-> TRUE, num |-> "3", den |-> "2"], [neg |-> FALSE, num |-> "1", den |-> "3"]}
S(g, x) == [acct |-> g, memo |-> "", neg |-> x.neg, num |-> x.num, den |-> x.den]
MCTxns == {[stamp |-> st, code |-> "", desc |-> "A - B", splits |-> <<S("a", x), S("b", y)>>] : st \in Stamps, x \in Amts, y \in Amts}
MCPrices == {<<>>} \cup {<<[com |-> "VXF", cur |-> "CAD", stamp |-> s, neg |-> FALSE, num |-> "5", den |-> "4"],
                           [com |-> "CAD", cur |-> "VXF", stamp |-> t, neg |-> FALSE, num |-> "2", den |-> "3"]>> : s, t \in Stamps}
Init ==
  /\ yearly \in BOOLEAN /\ phase = "book" /\ todo = [prices |-> {}, txns |-> {}] /\ files = [f \in {} |-> <<>>]
  /\ \E as \in AccountSets, ps \in MCPrices : book = [coms |-> <<Com("CAD", 2), Com("VXF", 3)>>, accts |-> as, prices |-> ps, txns |-> <<>>]
Next ==
  \/ phase = "book" /\ Len(book.txns) < MaxTxns /\ (\E t \in MCTxns : book' = [book EXCEPT !.txns = Append(@, t)]) /\ UNCHANGED <<todo, files, yearly, phase>>
  \/ phase = "book" /\ phase' = "write" /\ Convert(book) /\ UNCHANGED yearly
  \/ phase = "write" /\ (WritePrice(yearly) \/ WriteTxn(yearly)) /\ UNCHANGED <<yearly, phase>>
MCSpec == Init /\ [][Next]_vars

IsPriceFile(f) == f = "prices.coin" \/ EndsWith(f, ".prices")
FilesOf(P(_)) == LET N == SetToSeq({f \in DOMAIN files : P(f)}) IN [i \in 1..Len(N) |-> [name |-> N[i], items |-> files[N[i]]]]
\* The conversion ends with files of which the property holds, however the ties are taken.
Ends == (phase = "write" /\ Done) =>
  /\ Written(yearly, Prices(book), FilesOf(IsPriceFile), "prices.coin", ".prices")
  /\ Written(yearly, Txns(book), FilesOf(LAMBDA f : ~IsPriceFile(f)), "transactions.coin", ".coin")
NeverStuck == (phase = "write" /\ ~Done) => ENABLED (WritePrice(yearly) \/ WriteTxn(yearly))
\* All accounts are somewhere below the root, under distinct names, wherever they are in the file.
Names == {FullName(book, book.accts[i].guid) : i \in 1..Len(book.accts)}
NamesDistinct == Names = {"Root", "Top", "Top:MyBank"}
\* Units drop less than one unit.
UnitsExact == \A x \in Amts : \A d \in {0, 2, 3} : IsQuotient(Units(x, d), x.neg, x.num, x.den, d)
\* The balances of the accounts add up to nothing in a book with one commodity and balanced transactions.
Closed == (phase = "write" /\ MustLoad(book) /\ \A i \in 1..Len(book.accts) : ComOf(book, book.accts[i].guid) = "CAD") =>
  Total([i \in 1..Len(book.accts) |-> BalanceOf(book, book.accts[i].guid)]) = Zero
Emitted == (phase = "write" /\ Done /\ Len(book.txns) = MaxTxns) => PrintT("SCN " \o ToJson([book |-> book, yearly |-> yearly]))
=============================================================================
