----------------------------- MODULE Trace_Imports -----------------------------
(* Checks traces of the real ofx2coin and csv2coin against the specification.     *)
EXTENDS Imports, TraceBase
O == INSTANCE OfxImport
C == INSTANCE CsvImport

VARIABLE l
tvars == <<ivars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TraceInit == accts = <<>> /\ coms = <<>> /\ rules = <<>> /\ ledger = <<>> /\ l = 1

Begin == Is("begin") /\ accts' = <<>> /\ coms' = <<>> /\ rules' = <<>> /\ ledger' = <<>>
\* The accounts and commodities of the database.
TSetup == Is("setup") /\ accts' = Ev.accts /\ coms' = Ev.coms /\ UNCHANGED <<rules, ledger>>
TRules == Is("rules") /\ rules' = ReadRules(AccountNames, Ev.lines) /\ UNCHANGED <<accts, coms, ledger>>
LedgerTxn(t) == [date |-> t.date, code |-> t.code, posts |-> [i \in 1..Len(t.posts) |->
                  [acct |-> t.posts[i].acct, com |-> t.posts[i].com, amt |-> Amount(t.posts[i].amount, DecOf(t.posts[i].com))]]]
TLedger == Is("ledger") /\ ledger' = [i \in 1..Len(Ev.txns) |-> LedgerTxn(Ev.txns[i])] /\ UNCHANGED <<accts, coms, rules>>
\* What the program prints for -rules.
TDump ==
  /\ Is("dump")
  /\ Verdict(l, "dumping the rules succeeds", TRUE, Ev.ok)
  /\ Ev.ok => \E got \in {ReadRules(AccountNames, Ev.lines)} : Require(l, "rules dumped", SameRules(got, rules), [expected |-> Dump(rules), shown |-> Ev.lines])
  /\ UNCHANGED ivars
\* An import of statements.
TOfx ==
  /\ Is("ofx")
  /\ IF ~O!CanImport(Ev.files) THEN Verdict(l, "import succeeds", FALSE, Ev.ok)
     ELSE /\ Verdict(l, "import succeeds", TRUE, Ev.ok)
          /\ Ev.ok => \E r \in {O!Outcome(Ev.files, Ev.keepdupes)} :
               /\ Require(l, "transactions imported", SameShown(r.kept, Ev.out), [expected |-> Expectation(r.kept), shown |-> Ev.out])
               /\ Require(l, "transactions reported as dropped", SameShown(r.dropped, Ev.dropped), [expected |-> Expectation(r.dropped), shown |-> Ev.dropped])
  /\ UNCHANGED ivars
\* The output of the preceding import is added to the ledger.
TAdopt ==
  /\ Is("adopt")
  /\ ledger' = ledger \o [i \in 1..Len(Ev.txns) |-> LedgerTxn(Ev.txns[i])]
  /\ UNCHANGED <<accts, coms, rules>>
TCsv ==
  /\ Is("csv")
  /\ \E r \in {C!Outcome(IF Ev.cols # <<>> THEN C!FieldDefs(Ev.cols) ELSE Ev.defs, Ev.skip, Ev.files)} :
       /\ Verdict(l, "import succeeds", r.ok, Ev.ok)
       /\ (r.ok /\ Ev.ok) => Require(l, "transactions imported", SameShown(r.out, Ev.out), [expected |-> Expectation(r.out), shown |-> Ev.out])
  /\ UNCHANGED ivars
TraceNext == Begin \/ TSetup \/ TRules \/ TLedger \/ TDump \/ TOfx \/ TAdopt \/ TCsv
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
