---------------------------- MODULE Trace_TestRunner ----------------------------
(* Checks traces of the real coin test against TestRunner.                       *)
EXTENDS TestRunner, TraceBase

VARIABLE l
tvars == <<rvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
FilesIn(fs) == [n \in {fs[i].name : i \in DOMAIN fs} |-> fs[CHOOSE i \in DOMAIN fs : fs[i].name = n].lines]
TraceInit == files = <<>> /\ main = "" /\ outs = <<>> /\ done = <<>> /\ l = 1

Begin == Is("begin") /\ UNCHANGED rvars
\* The files, and what each clause prints on its own (after the modifications before it).
TFiles == Is("files") /\ files' = FilesIn(Ev.fs) /\ main' = Ev.main /\ outs' = Ev.outs /\ done' = <<>>
\* What the same command prints over the same entries outside of the test runner.
TCli == Is("cli") /\ Verdict(l, "output of the command over the same entries", outs[Ev.i].out, Ev.out) /\ UNCHANGED rvars
TReport ==
  /\ Is("report")
  /\ \E cs \in {Clauses} :
     /\ Verdict(l, "number of clauses", Len(outs), Len(cs))
     /\ Verdict(l, "clauses reported", ClauseReport(cs, Ev.verbose), [k \in DOMAIN Ev.clauses |-> Ev.clauses[k].head])
     /\ Verdict(l, "files reported", FileReport(cs, Ev.verbose), Ev.files)
     /\ \A k \in DOMAIN Ev.clauses : \A i \in {j \in 1..Len(cs) : cs[j].file = Ev.clauses[k].head.file /\ cs[j].line = Ev.clauses[k].head.line} :
          (Ev.clauses[k].head.verdict = "FAIL" /\ outs[i].known) =>
             Require(l, "the difference shown", \E j \in {m \in 1..Len(cs) : cs[m].file = cs[i].file /\ cs[m].line = cs[i].line} :
                DiffOk(cs[j].text, outs[j].out, Ev.clauses[k].minus, Ev.clauses[k].plus), Ev.clauses[k])
  /\ UNCHANGED rvars
\* The files afterwards.
TAfter ==
  /\ Is("after")
  /\ \E cs \in {Clauses} :
     /\ Verdict(l, "files afterwards", Filled(cs), FilesIn(Ev.fs))
     /\ files' = Filled(cs) /\ done' = <<>> /\ UNCHANGED <<main, outs>>
TraceNext == Begin \/ TFiles \/ TCli \/ TReport \/ TAfter
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
