---------------------------- MODULE Trace_Generate ----------------------------
(* Ledgers made by the real gen2coin, and days by its generators, against Generate. *)
EXTENDS Generate, TraceBase
VARIABLES l, mode, open
tvars == <<genvars, rvars, l, mode, open>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1 /\ UNCHANGED rvars
TraceInit == GStart(Personal, 0, 0) /\ l = 1 /\ mode = [how |-> "all", balances |-> FALSE] /\ open = FALSE
             /\ rule = 0 /\ from = 0 /\ to = 0 /\ at = 0 /\ out = 0
Keep == UNCHANGED <<genvars, mode, open>>
N(d) == DayNum(d[1], d[2], d[3])
Begin == Is("begin") /\ Keep
\* What one generator gave for one range.
TDates ==
  /\ Is("dates")
  /\ \E ds \in {[i \in 1..Len(Ev.dates) |-> N(Ev.dates[i])]} :
       \E ok \in {Ev.ok /\ Allowed(Ev.rule, N(Ev.b), N(Ev.e), ds)} :
       Require(l, "days of the rule", ok, [rule |-> Ev.rule, since |-> Ev.b, until |-> Ev.e, days |-> Ev.dates])
  /\ Keep
\* A run: its range, how the transactions are filed, the accounts declared.
TRun ==
  /\ Is("run")
  /\ Verdict(l, "run succeeds", TRUE, Ev.ok)
  /\ GRestart(Personal, N(Ev.b), N(Ev.e))
  /\ mode' = [how |-> Ev.how, balances |-> Ev.balances] /\ open' = Ev.ok
  /\ Ev.declared => Require(l, "accounts declared", PersonalAccounts \subseteq SeqSet(Ev.accounts) /\ Len(Ev.accounts) = Cardinality(SeqSet(Ev.accounts)), Ev.accounts)
PostSum(ps) == SumSeq([i \in 1..Len(ps) |-> ps[i].amt])
\* A transaction, in the order written: two postings, in whichever order.
TTxn ==
  /\ Is("txn")
  /\ UNCHANGED <<mode, open>>
  /\ LET ps == Ev.posts
         Turn(i) == [day |-> N(Ev.day), desc |-> Ev.desc, dst |-> ps[i].acct, src |-> ps[3 - i].acct, amt |-> ps[i].amt]
         shaped == Len(ps) = 2 /\ (\A i \in 1..Len(ps) : ps[i].acct \in PersonalAccounts /\ ps[i].com = "CAD") /\ PostSum(ps) = 0
     IN /\ Require(l, "two postings that cancel", shaped, Ev)
        /\ IF ~shaped THEN UNCHANGED genvars
           ELSE \E t \in {IF RuleOf(rules, Turn(1)) > 0 THEN Turn(1) ELSE Turn(2)} :
                  /\ \E ok \in {CanMake(t)} : Require(l, "transaction allowed", ok, [txn |-> t, since |-> since, until |-> until, before |-> bal[t.dst]])
                  /\ Record(t)
                  /\ Verdict(l, "file", FileFor(mode.how, t.day), Ev.file)
                  /\ mode.balances => \A i \in 1..2 : Verdict(l, "balance of " \o ps[i].acct, bal'[ps[i].acct], ps[i].bal)
\* All transactions were read: the days of every rule.
TDone ==
  /\ Is("done")
  /\ UNCHANGED <<genvars, mode>> /\ open' = FALSE
  /\ open => \A i \in 1..Len(rules) :
       \E ds \in {DaysMade(rules, made, i)} : \E ok \in {Allowed(rules[i].on, since, until, ds)} :
         Require(l, "days of " \o ToString(rules[i].payees), ok, [rule |-> rules[i].on, since |-> DateText(since), until |-> DateText(until), days |-> [k \in 1..Len(ds) |-> DateText(ds[k])]])
\* The directory loads; rows of [account, balance in hundredths].
TLoaded ==
  /\ Is("loaded")
  /\ Verdict(l, "the ledger loads", TRUE, Ev.ok)
  /\ Ev.ok => Verdict(l, "number of transactions", Len(made), Ev.count)
  /\ \A k \in 1..Len(Ev.rows) : Verdict(l, "balance of " \o Ev.rows[k][1], bal[Ev.rows[k][1]], Ev.rows[k][2])
  /\ Keep
TraceNext == Begin \/ TDates \/ TRun \/ TTxn \/ TDone \/ TLoaded
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
