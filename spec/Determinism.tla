----------------------------- MODULE Determinism -----------------------------
(* A program as seen from outside: it answers requests (a command over given    *)
(* files).  The first answer to a request fixes all later ones.                  *)
EXTENDS TLC
VARIABLE answers            \* [request -> answer] given so far
DInit == answers = [r \in {} |-> ""]
Given(r) == r \in DOMAIN answers
Answer(r, a) ==
  /\ (IF Given(r) THEN answers[r] = a ELSE TRUE)
  /\ answers' = (r :> a) @@ answers
\* One answer per request, forever: answers are only ever added.
Settled == [][\A r \in DOMAIN answers : r \in DOMAIN answers' /\ answers'[r] = answers[r]]_answers
=============================================================================
