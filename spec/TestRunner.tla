------------------------------ MODULE TestRunner ------------------------------
(* coin test: the test clauses of a file and the files it includes are run one    *)
(* after another over the loaded entries; a clause passes when its command's       *)
(* output is its text, and a clause without text is filled in.  What a command     *)
(* prints over the entries, as the modify clauses before it left them, is given     *)
(* (out); it does not depend on the other clauses.                                 *)
EXTENDS Strs, Integers, Sequences, FiniteSets, SequencesExt

VARIABLES files,   \* [name -> lines]
          main,    \* the file being tested
          outs,    \* what the command of each clause prints: sequence of [known, out]
          done     \* verdicts so far
rvars == <<files, main, outs, done>>

-----------------------------------------------------------------------------
(* The clauses of the files, in reading order.                                 *)
IsHead(s) == StartsWith(s, "test ") /\ Trim(s) # "test"
CmdOf(s) == TrimL(From(s, 5))
IncludeOf(s) == Trim(From(s, 8))
DirOf(f) == LET p == Split(f, "/") IN IF Len(p) = 1 THEN "" ELSE Join(SubSeq(p, 1, Len(p) - 1), "/") \o "/"
RECURSIVE ClausesIn(_, _)
\* in: inside of a clause, whose record is the last one
ClausesIn(fs, f) ==
  LET ls == fs[f] IN
  FoldLeft(LAMBDA a, i :
     LET s == ls[i] IN
     IF a.in THEN IF Trim(s) = "end test" THEN [a EXCEPT !.in = FALSE]
                  ELSE [a EXCEPT !.cs[Len(a.cs)].text = Append(@, s)]
     ELSE IF IsHead(s) THEN [in |-> TRUE, cs |-> Append(a.cs, [file |-> f, line |-> i, cmd |-> CmdOf(s), text |-> <<>>])]
     ELSE IF StartsWith(s, "include ") THEN [a EXCEPT !.cs = @ \o ClausesIn(fs, DirOf(f) \o IncludeOf(s))]
     ELSE a,
     [in |-> FALSE, cs |-> <<>>], [i \in 1..Len(ls) |-> i]).cs
Clauses == ClausesIn(files, main)

-----------------------------------------------------------------------------
Judge(c, o) ==
  IF ~o.known THEN "FAIL"
  ELSE IF c.text = <<>> THEN "FILL"
  ELSE IF c.text = o.out THEN "OK" ELSE "FAIL"
RunClause ==
  /\ Len(done) < Len(outs)
  /\ LET i == Len(done) + 1 IN done' = Append(done, Judge(Clauses[i], outs[i]))
  /\ UNCHANGED <<files, main, outs>>
Verdicts(cs) == [i \in 1..Len(cs) |-> Judge(cs[i], outs[i])]

\* The lines of the report about clauses, and about files.
ClauseReport(cs, verbose) ==
  LET v == Verdicts(cs)
      keep == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : v[i] = "FAIL" \/ (verbose /\ v[i] = "OK"))
  IN [k \in 1..Len(keep) |-> [verdict |-> v[keep[k]], file |-> cs[keep[k]].file, line |-> cs[keep[k]].line, cmd |-> cs[keep[k]].cmd]]
FilesOf(cs) == FoldLeft(LAMBDA a, c : IF \E i \in 1..Len(a) : a[i] = c.file THEN a ELSE Append(a, c.file), <<>>, cs)
FileReport(cs, verbose) ==
  IF verbose THEN <<>>
  ELSE LET fs == FilesOf(cs) v == Verdicts(cs) IN
       [k \in 1..Len(fs) |-> [verdict |-> IF \E i \in 1..Len(cs) : cs[i].file = fs[k] /\ v[i] = "FAIL" THEN "FAIL" ELSE "OK", file |-> fs[k]]]

\* The files afterwards: the output of the clauses without text after their heads.
FilledFile(f, cs) ==
  LET ls == files[f] v == Verdicts(cs)
      at(i) == {k \in 1..Len(cs) : cs[k].file = f /\ cs[k].line = i /\ v[k] = "FILL"}
  IN FoldLeft(LAMBDA a, i : Append(a, ls[i]) \o (IF at(i) = {} THEN <<>> ELSE outs[CHOOSE k \in at(i) : \A j \in at(i) : k <= j].out),
              <<>>, [i \in 1..Len(ls) |-> i])
Filled(cs) == [f \in DOMAIN files |-> FilledFile(f, cs)]
Fill ==
  /\ Len(done) = Len(outs)
  /\ \E cs \in {Clauses} : files' = Filled(cs)
  /\ done' = <<>>
  /\ UNCHANGED <<main, outs>>

\* The difference shown for a failed clause takes its text to the output: minus and plus are the lines shown
\* as removed and added; a blank line may have been appended to both.
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
DiffOk(text, out, minus, plus) ==
  LET a == Append(text, "") b == Append(out, "")
      all == {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)}
             \cup {minus[i] : i \in 1..Len(minus)} \cup {plus[i] : i \in 1..Len(plus)}
  IN /\ minus # <<>> \/ plus # <<>>
     /\ \A x \in all : Count(minus, x) <= Count(a, x) /\ Count(plus, x) <= Count(b, x)
                       /\ Count(a, x) - Count(minus, x) = Count(b, x) - Count(plus, x)
=============================================================================
