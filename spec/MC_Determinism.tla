--------------------------- MODULE MC_Determinism ---------------------------
EXTENDS Determinism
CONSTANTS Requests, Answers
MCNext == \E r \in Requests, a \in Answers : Answer(r, a)
MCSpec == DInit /\ [][MCNext]_answers
MCSettled == Settled
=============================================================================
