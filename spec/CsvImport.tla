------------------------------ MODULE CsvImport ------------------------------
(* csv2coin: the records of a table become transactions as the source's field      *)
(* definitions say.                                                                *)
(*   field definitions: sequence of [name, k, ...] with                             *)
(*     k = "col"  [col]             the column                                      *)
(*     k = "ext"  [col, tmpl, rex]  the template if the expression is found in it   *)
(*     k = "der"  [tmpl, cond]      the template; cond is <<>> or <<[field, rex]>>  *)
(*   templates: sequence of [k |-> "lit", t], [k |-> "grp", n], [k |-> "fld", t]    *)
EXTENDS Imports

ValidDate(s) ==
  /\ Len(s) = 10 /\ Ch(s, 5) = "/" /\ Ch(s, 8) = "/"
  /\ \A i \in (1..10) \ {5, 8} : IsDigit(Ch(s, i))
  /\ LET y == ValOf(SubSeq(s, 1, 4)) m == ValOf(SubSeq(s, 6, 7)) d == ValOf(SubSeq(s, 9, 10)) IN
     /\ m \in 1..12
     /\ d \in 1..(IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m # 2 THEN 31 ELSE IF (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0 THEN 29 ELSE 28)
NumOf(s) == ValOf(SubSeq(s, 1, 4)) * 10000 + ValOf(SubSeq(s, 6, 7)) * 100 + ValOf(SubSeq(s, 9, 10))

RECURSIVE FieldValue(_, _, _)
RECURSIVE DefValue(_, _, _)
\* The first value that is not empty among those the definitions of a field give.
FieldValue(defs, name, row) ==
  LET vs == SelectSeq([i \in 1..Len(defs) |-> IF defs[i].name = name THEN DefValue(defs, defs[i], row) ELSE ""], LAMBDA v : v # "")
  IN IF vs = <<>> THEN "" ELSE vs[1]
DefValue(defs, f, row) ==
  IF f.k = "col" THEN row[f.col + 1]
  ELSE IF f.k = "ext" THEN
    LET v == row[f.col + 1] m == Match(f.rex, v) IN
    IF ~m.ok THEN "" ELSE FoldLeft(LAMBDA a, p : a \o IF p.k = "grp" THEN Group(v, m, p.n) ELSE p.t, "", f.tmpl)
  ELSE IF f.cond # <<>> /\ ~Found(f.cond[1].rex, FieldValue(defs, f.cond[1].field, row)) THEN ""
  ELSE FoldLeft(LAMBDA a, p : a \o IF p.k = "fld" THEN FieldValue(defs, p.t, row) ELSE p.t, "", f.tmpl)

RECURSIVE Below(_)
\* An account and those under it: the latter first, in the order of their names.
Below(a) == LET cs == ChildrenIn(AccountNames, a) IN FlattenSeqs([i \in 1..Len(cs) |-> Below(cs[i])]) \o <<a>>
AccountFor(com, a) ==
  LET F == SelectSeq(Below(a), LAMBDA b : ComOf(b) = com) IN IF F = <<>> THEN "Unbalanced" ELSE F[1]

\* What becomes of a record: [ok, out], with out empty if it is dropped.
Wrong == [ok |-> FALSE, out |-> <<>>]
Convert(defs, row) ==
  LET V(n) == FieldValue(defs, n, row)
      id == V("account")
      desc == Squeeze(V("description"))
      from == AccountWithId(id)
      d == Decision(RulesOf(rules, id), desc)
      date == V("date") note == Squeeze(V("note")) am == V("amount") cur == V("currency") sym == V("symbol") qu == V("quantity")
      com == IF cur = "" THEN ComOf(d.acct) ELSE ComNamed(cur)
      qcom == ComNamed(sym)
      notes == IF note # "" THEN <<note>> ELSE d.notes
      T(posts) == [ok |-> TRUE, out |-> <<[date |-> NumOf(date), desc |-> desc, notes |-> notes, code |-> "", posts |-> posts]>>]
  IN
  IF (\E i \in 1..Len(defs) : defs[i].k # "der" /\ defs[i].col + 1 > Len(row)) \/ from = "" THEN Wrong
  ELSE IF d.drop THEN [ok |-> TRUE, out |-> <<>>]
  ELSE IF ~ValidDate(date) \/ am = "" \/ com = "" \/ ~AmountParts(am).ok THEN Wrong
  ELSE IF sym # "" /\ (qcom = "" \/ (qu # "" /\ ~AmountParts(qu).ok)) THEN Wrong
  ELSE LET a == Amount(am, DecOf(com))
           to == AccountFor(com, d.acct) IN
       IF sym = "" \/ qu = "" THEN T(TwoPostings(Posting(AccountFor(com, from), com, a), Posting(to, com, Neg(a))))
       ELSE LET q0 == Amount(qu, DecOf(qcom))
                q == IF q0.m # <<>> /\ a.m # <<>> /\ q0.neg = a.neg THEN Neg(q0) ELSE q0 IN
            T(TwoPostings(Posting(AccountFor(qcom, from), qcom, q), Posting(to, com, a)))

\* The records of a file: those after the skipped ones, all with as many columns as the first of them.
DataRows(skip, rows) == SubSeq(rows, skip + 1, Len(rows))
FileOk(skip, rows) == Len(rows) >= skip /\ LET r == DataRows(skip, rows) IN \A i \in 1..Len(r) : Len(r[i]) = Len(r[1])
Results(defs, rows) == [i \in 1..Len(rows) |-> Convert(defs, rows[i])]
\* The outcome of importing files; all the results are computed once.
Outcome(defs, skip, files) ==
  IF \E f \in 1..Len(files) : ~FileOk(skip, files[f]) THEN Wrong
  ELSE LET rs == Results(defs, FlattenSeqs([f \in 1..Len(files) |-> DataRows(skip, files[f])])) IN
       IF \E i \in 1..Len(rs) : ~rs[i].ok THEN Wrong
       ELSE [ok |-> TRUE, out |-> ByDate(FlattenSeqs([i \in 1..Len(rs) |-> rs[i].out]))]
\* The definitions for -fields: columns for account, description, date, amount and the optional ones.
Labels == <<"account", "description", "date", "amount", "currency", "symbol", "quantity", "note">>
FieldDefs(cols) == [i \in 1..Len(cols) |-> [name |-> Labels[i], k |-> "col", col |-> cols[i]]]
=============================================================================
