----------------------------- MODULE MC_Generate -----------------------------
EXTENDS Generate
CONSTANTS Days
Tiny == << Rule(Weekly(1, 1, <<1, 5>>), {"shop"}, {MasterCard, Checking}, {"Expenses:Groceries"}, Between(1, 3)),
           Rule(Monthly(1, 1, <<-1, -2>>), {"repay balance"}, {Checking}, {MasterCard}, Rest),
           Rule(Monthly(1, 1, <<-1>>), {"interest"}, {"Income:Interest"}, {Checking}, Share(100)) >>
Txns(i) == {[day |-> d, desc |-> p, dst |-> y, src |-> x, amt |-> a] : d \in since..until, p \in Tiny[i].payees, x \in Tiny[i].src, y \in Tiny[i].dst,
             a \in IF Tiny[i].pay.k = "between" THEN {100, 200} ELSE IF Tiny[i].pay.k = "rest" THEN {-bal[y] : y \in Tiny[i].dst} ELSE {bal[y] \div 100 : y \in Tiny[i].dst}}
Init == \E b \in {DayNum(2020, 2, 22), DayNum(2019, 12, 28)} : GStart(Tiny, b, b + Days)
           /\ rule = 0 /\ from = 0 /\ to = 0 /\ at = 0 /\ out = 0
\* Days are taken in order, so that the days of every rule stay allowed up to the present one.
UpTo(i, t) == Allowed(Tiny[i].on, since, t.day, DaysMade(Tiny, Append(made, t), i))
Next == \E i \in 1..3 : \E t \in Txns(i) : Make(t) /\ UpTo(i, t) /\ UNCHANGED rvars
MCSpec == Init /\ [][Next]_<<genvars, rvars>>

RECURSIVE SumBal(_)
SumBal(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE x \in A : TRUE IN bal[a] + SumBal(A \ {a})
Zero == SumBal(PersonalAccounts) = 0
Repaid == made # <<>> /\ made[Len(made)].dst = MasterCard => bal[MasterCard] = 0
Ordered == \A i \in 1..(Len(made) - 1) : made[i].day <= made[i + 1].day
Ranged == \A i \in 1..Len(made) : made[i].day >= since /\ made[i].day <= until
\* The files together are the ledger, in order, each within one period.
Names(how) == {FileFor(how, made[i].day) : i \in 1..Len(made)}
Filed == \A how \in {"all", "month", "year"} :
  /\ SumSeq([k \in 1..Cardinality(Names(how)) |-> Len(InFile(how, SetToSeq(Names(how))[k]))]) = Len(made)
  /\ \A n \in Names(how) : LET q == InFile(how, n) IN
       \E i \in 0..(Len(made) - Len(q)) : \A j \in 1..Len(q) : q[j] = made[i + j]
=============================================================================
