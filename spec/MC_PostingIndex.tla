---------------------------- MODULE MC_PostingIndex ----------------------------
(* All short histories over a few accounts and days.                              *)
EXTENDS PostingIndex, TLC, Json
CONSTANTS Accts, Days, MaxOps
VARIABLES hist, n, m
mvars == <<pvars, hist, n, m>>
MCInit == PInit /\ hist = <<>> /\ n = 0 /\ m = 0
Fresh(d, a, b) == <<[id |-> 2 * n + 1, acct |-> a, day |-> d, txn |-> n + 1], [id |-> 2 * n + 2, acct |-> b, day |-> d, txn |-> n + 1]>>
DoPost == \E d \in Days, a \in Accts, b \in Accts : a # b /\ Post(Fresh(d, a, b)) /\ n' = n + 1
            /\ hist' = Append(hist, [op |-> "post", day |-> d, from |-> a, to |-> b])
DoMove == \E p \in DOMAIN info, a \in Accts : a # OwnerOf(p) /\ Move(p, a) /\ hist' = Append(hist, [op |-> "move", id |-> p, to |-> a]) /\ UNCHANGED n
Live == {info[p].txn : p \in DOMAIN info}
DoDrop == \E T \in (SUBSET Live) \ {{}} : Drop(T) /\ hist' = Append(hist, [op |-> "drop", txns |-> SetToSeq(T)]) /\ UNCHANGED n
MCNext == m < MaxOps /\ m' = m + 1 /\ (DoPost \/ DoMove \/ DoDrop)
MCSpec == MCInit /\ [][MCNext]_mvars
\* An operation on some postings leaves the order of all the others as it was.
Touched == IF hist' = <<>> THEN {} ELSE LET h == hist'[Len(hist')] IN
  IF h.op = "move" THEN {h.id} ELSE (DOMAIN info \ DOMAIN info') \cup (DOMAIN info' \ DOMAIN info)
OthersStay == [][\A a \in DOMAIN idx : \A x, y \in ToSet(idx[a]) \ Touched : (Before(idx[a], x, y) <=> Before(idx'[a], x, y))]_mvars
\* A posting that is added goes after those of its date.
GoesAfter == hist # <<>> => LET h == hist[Len(hist)] IN
  h.op = "move" => LET s == idx[h.to] IN \A i, j \in 1..Len(s) : (s[i] = h.id /\ j > i) => info[s[j]].day > info[h.id].day
Emitted == (m = MaxOps) => PrintT("SCN " \o ToJson([hist |-> hist]))
=============================================================================
