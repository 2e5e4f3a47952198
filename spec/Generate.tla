------------------------------- MODULE Generate -------------------------------
(* The generator of sample ledgers.  Every rule says on which days its transactions *)
(* fall and what they are; the transactions are made in the order of their days,     *)
(* each from the balances the ones before it have left.                              *)
(*  a rule: [on |-> recurrence, payees, src, dst, pay |-> [k, low, high]]            *)
(*  pay:  "between" an amount of whole units from low up to high (but not high,      *)
(*        unless they are the same); "rest" the rest of dst, so that it gets zero;   *)
(*        "share" the high-th part of dst's balance                                  *)
(* Amounts are in hundredths.                                                        *)
EXTENDS Recurrence

Weekly(c, i, ds) == [k |-> "week", count |-> c, interval |-> i, days |-> ds]
Monthly(c, i, ds) == [k |-> "month", count |-> c, interval |-> i, days |-> ds]
Between(a, b) == [k |-> "between", low |-> a, high |-> b]
Rest == [k |-> "rest", low |-> 0, high |-> 0]
Share(n) == [k |-> "share", low |-> 0, high |-> n]
Rule(on, payees, src, dst, pay) == [on |-> on, payees |-> payees, src |-> src, dst |-> dst, pay |-> pay]

Checking == "Assets:Bank:Checking"
Savings == "Assets:Bank:Savings"
MasterCard == "Liabilities:MasterCard"
Amex == "Liabilities:Amex"
Cards == {Checking, MasterCard, Amex}
\* The rules of the personal ledger.
Personal == <<
  Rule(Weekly(1, 2, <<1, 2, 3, 4, 5>>), {"Costco"}, Cards, {"Expenses:Groceries"}, Between(100, 1000)),
  Rule(Weekly(2, 1, <<>>), {"FARM BOY", "FRESHCO", "LOBLAWS", "LOEB", "SOBEY'S", "NO FRILLS"}, Cards, {"Expenses:Groceries"}, Between(30, 200)),
  Rule(Monthly(2, 1, <<15, -1>>), {"ACME Inc"}, {"Income:Salary"}, {Checking}, Between(2000, 2000)),
  Rule(Monthly(1, 1, <<-1, -2, -3>>), {"repay balance"}, {Checking}, {MasterCard}, Rest),
  Rule(Monthly(1, 1, <<-1, -2, -3>>), {"repay balance"}, {Checking}, {Amex}, Rest),
  Rule(Monthly(1, 1, <<1>>), {"Enbridge Gas"}, {Checking}, {"Expenses:Heat"}, Between(100, 200)),
  Rule(Monthly(1, 1, <<1>>), {"Hydro One"}, {Checking}, {"Expenses:Electricity"}, Between(50, 100)),
  Rule(Monthly(1, 2, <<-15>>), {"City Water&Sewer"}, {Checking}, {"Expenses:Water"}, Between(100, 150)),
  Rule(Monthly(1, 1, <<1>>), {"monthly savings"}, {Checking}, {Savings}, Between(300, 2000)),
  Rule(Monthly(1, 1, <<-1>>), {"monthly interest %2/12"}, {"Income:Interest"}, {Savings}, Share(600)) >>
PersonalAccounts == {Checking, Savings, MasterCard, Amex, "Income:Salary", "Income:Interest",
                     "Expenses:Groceries", "Expenses:Heat", "Expenses:Electricity", "Expenses:Water"}

AbsOf(x) == IF x < 0 THEN -x ELSE x
\* Whether amt can go to dst when its balance is b.
Payable(pay, amt, b) ==
  CASE pay.k = "between" -> amt % 100 = 0 /\ (amt = pay.low * 100 \/ (amt >= pay.low * 100 /\ amt < pay.high * 100))
    [] pay.k = "rest" -> amt = -b
    [] pay.k = "share" -> AbsOf(amt * pay.high - b) < pay.high        \* rounded either way
\* A transaction: [day, desc, dst, src, amt]; amt is what dst gets.
Suits(r, t) == t.desc \in r.payees /\ t.dst \in r.dst /\ t.src \in r.src
RuleOf(rules, t) == LET I == {i \in 1..Len(rules) : Suits(rules[i], t)} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
DaysMade(rules, ts, i) == LET q == SelectSeq(ts, LAMBDA t : RuleOf(rules, t) = i) IN [k \in 1..Len(q) |-> q[k].day]

-----------------------------------------------------------------------------
VARIABLES rules, since, until, made, bal
genvars == <<rules, since, until, made, bal>>
ZeroBal == [a \in PersonalAccounts |-> 0]
GStart(rs, b, e) == rules = rs /\ since = b /\ until = e /\ made = <<>> /\ bal = ZeroBal
GRestart(rs, b, e) == rules' = rs /\ since' = b /\ until' = e /\ made' = <<>> /\ bal' = ZeroBal
\* The days so far may still become ones that the rule allows: no day after the last one was looked at.
SoFar(rs, ts, b, e) == \A i \in 1..Len(rs) : LET ds == DaysMade(rs, ts, i) IN \A k \in 1..Len(ds) : ds[k] >= b /\ ds[k] <= e
CanMake(t) ==
  /\ t.day >= since /\ t.day <= until
  /\ made # <<>> => made[Len(made)].day <= t.day
  /\ LET i == RuleOf(rules, t) IN i > 0 /\ Payable(rules[i].pay, t.amt, bal[t.dst])
Record(t) ==
  /\ made' = Append(made, t)
  /\ bal' = [bal EXCEPT ![t.dst] = @ + t.amt, ![t.src] = @ - t.amt]
  /\ UNCHANGED <<rules, since, until>>
Make(t) == CanMake(t) /\ Record(t)
\* All was made: the days of every rule are days the rule allows.
Finished == \A i \in 1..Len(rules) : Allowed(rules[i].on, since, until, DaysMade(rules, made, i))

\* The file for a day: how is "all", "month" or "year".
FileFor(how, day) ==
  LET c == Civil(day) y == PadZero(ToString(c.y), 4) IN
  CASE how = "all" -> "transactions.coin" [] how = "year" -> y \o ".coin" [] how = "month" -> y \o "-" \o PadZero(ToString(c.m), 2) \o ".coin"
InFile(how, name) == SelectSeq(made, LAMBDA t : FileFor(how, t.day) = name)
=============================================================================
