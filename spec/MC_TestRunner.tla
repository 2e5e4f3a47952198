----------------------------- MODULE MC_TestRunner -----------------------------
(* All small test files, of a main file and one that it may include: clauses that  *)
(* show the entries, show nothing, change the entries or are unknown, with right,   *)
(* wrong, blank and empty texts.  Emits the scenarios.                             *)
EXTENDS TestRunner, TLC, Json
CONSTANTS MaxClauses
VARIABLES plan, inc, step
mvars == <<rvars, plan, inc, step>>

Kinds == {"show", "silent", "mod", "unknown"}
Texts == {"right", "wrong", "blank", "empty"}
Plans == {p \in [kind : Kinds, text : Texts, in : {"main", "inc"}] : ~(p.kind = "unknown" /\ p.text # "wrong") /\ ~(p.kind = "silent" /\ p.text = "right")}
\* The abstract system: the output of a command after so many modifications.
OutOf(k, mods) == IF k = "show" THEN <<"state " \o ToString(mods), "">> ELSE IF k = "silent" THEN <<>> ELSE <<"moved">>
RECURSIVE ModsBefore(_, _)
ModsBefore(ps, i) == IF i = 1 THEN 0 ELSE ModsBefore(ps, i - 1) + (IF ps[i - 1].kind = "mod" THEN 1 ELSE 0)
TextOf(p, o) == CASE p.text = "right" -> o [] p.text = "wrong" -> Append(o, "x") [] p.text = "blank" -> <<"">> [] p.text = "empty" -> <<>>
ClauseLines(p, i, o) == <<"; c", "test " \o p.kind \o ToString(i)>> \o TextOf(p, o) \o <<"end test">>
\* The included file's clauses are consecutive: it is included where they start.
LinesOf(ps, os, f) ==
  FoldLeft(LAMBDA a, i : a \o (IF ps[i].in = f THEN ClauseLines(ps[i], i, os[i]) ELSE <<>>)
                           \o (IF f = "main" /\ ps[i].in = "inc" /\ (i = 1 \/ ps[i - 1].in = "main") THEN <<"include inc">> ELSE <<>>),
           <<>>, [i \in 1..Len(ps) |-> i])
Consecutive(ps) == \A i, k \in 1..Len(ps) : \A j \in i..k : (ps[i].in = "inc" /\ ps[k].in = "inc") => ps[j].in = "inc"
MCInit == files = [f \in {"main", "inc"} |-> <<>>] /\ main = "main" /\ outs = <<>> /\ done = <<>> /\ plan = <<>> /\ inc = FALSE /\ step = "plan"
Choose == step = "plan" /\ Len(plan) < MaxClauses /\ (\E p \in Plans : plan' = Append(plan, p)) /\ Consecutive(plan') /\ UNCHANGED <<rvars, inc, step>>
Write ==
  /\ step = "plan" /\ plan # <<>> /\ step' = "run"
  /\ outs' = [i \in 1..Len(plan) |-> [known |-> plan[i].kind # "unknown", out |-> OutOf(plan[i].kind, ModsBefore(plan, i))]]
  /\ files' = [f \in {"main", "inc"} |-> LinesOf(plan, [i \in 1..Len(plan) |-> outs'[i].out], f)]
  /\ UNCHANGED <<main, done, plan, inc>>
Run == step = "run" /\ RunClause /\ UNCHANGED <<plan, inc, step>>
Finish == step = "run" /\ Fill /\ step' = "filled" /\ UNCHANGED <<plan, inc>>
MCNext == Choose \/ Write \/ Run \/ Finish
MCSpec == MCInit /\ [][MCNext]_mvars

\* Every clause is found where it was written, in order.
Found == step # "plan" => LET cs == Clauses IN Len(cs) = Len(plan) /\ \A i \in 1..Len(plan) : cs[i].file = plan[i].in /\ cs[i].cmd = plan[i].kind \o ToString(i)
VerdictsOk == step = "run" => \A i \in 1..Len(done) :
  done[i] = (IF plan[i].kind = "unknown" THEN "FAIL" ELSE IF plan[i].text = "empty" THEN "FILL" ELSE IF plan[i].text = "right" THEN "OK" ELSE "FAIL")
\* After filling only clauses that print nothing are without text, and those that were filled pass.
FilledPass == step = "filled" => LET cs == Clauses IN \A i \in 1..Len(plan) :
  /\ (Judge(cs[i], outs[i]) = "FILL" => outs[i].out = <<>>)
  /\ (plan[i].text = "empty" /\ outs[i].out # <<>>) => Judge(cs[i], outs[i]) = "OK"
FillOnce == step = "filled" => Filled(Clauses) = files
\* A file is OK exactly if all of its clauses are.
FilesOk == step = "run" => LET cs == Clauses r == FileReport(cs, FALSE) IN
  \A k \in 1..Len(r) : (r[k].verdict = "OK") <=> (\A i \in 1..Len(cs) : cs[i].file = r[k].file => Judge(cs[i], outs[i]) # "FAIL")
DiffsOk == step = "run" => \A i \in 1..Len(done) : LET c == Clauses[i] IN
  done[i] = "FAIL" => DiffOk(c.text, outs[i].out, c.text, outs[i].out) \/ (c.text = <<>> /\ outs[i].out = <<>>)
Emitted == (step = "run" /\ done = <<>>) => PrintT("SCN " \o ToJson([plan |-> plan]))
=============================================================================
