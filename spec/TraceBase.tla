------------------------------ MODULE TraceBase ------------------------------
(* Common parts of the trace specifications: a trace is a file of JSON objects, *)
(* one event each, produced by running the real programs.  A trace spec takes   *)
(* the events one by one, each by the action of the specification it stands    *)
(* for, and compares what the programs showed with what the specification says. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)

\* Reports a difference and goes on, so that the rest of the trace is checked as well.
Verdict(l, what, expected, observed) ==
  IF expected = observed THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([line |-> l, what |-> what, expected |-> expected, observed |-> observed]))
Require(l, what, ok, detail) ==
  IF ok THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([line |-> l, what |-> what, expected |-> "TRUE", observed |-> detail]))

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
SeqSet(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
