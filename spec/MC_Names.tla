------------------------------ MODULE MC_Names ------------------------------
(* Account expressions over small sets of names, explored exhaustively.          *)
EXTENDS Names, Json
CONSTANT MaxNames
VARIABLE declared
NamePool == {"A", "A:B", "A:B:C", "AB", "AB:C", "B", "B:A", "C:AB:B", "a"}
ExprPool == {"A", "a", "b", "a:b", "a::c", ":c", "a:", "::c", "a:b:c", "^a", "b$", "^ab$", "root", "^a:", "un", "zz", "ab", "AB:C", "a:::b"}
MCInit == declared = {}
MCNext == \E n \in NamePool : n \notin declared /\ Cardinality(declared) < MaxNames /\ declared' = declared \cup {n}
MCSpec == MCInit /\ [][MCNext]_declared
All == Closure(declared)
\* A full name denotes itself.
FullNames == \A n \in All : Denotes(All, n) = n
\* What is denoted matches and is an ancestor of whatever else matches; nothing else is denoted.
Sound == \A e \in ExprPool : LET d == Denotes(All, e) M == {n \in All : ExprMatches(e, n)} IN
  /\ d # "" => d \in All /\ (d = e \/ (d \in M /\ \A n \in M : n = d \/ IsUnder(n, d)))
  /\ d = "" => \A a \in M : \E n \in M : n # a /\ ~IsUnder(n, a)
\* A name that matches only itself stays denoted when accounts under it are added (no dependence on order).
OrderFree == \A e \in ExprPool : LET d == Denotes(All, e) IN
  (d # "" /\ d # e) => Denotes(All \cup {d \o ":Zz"}, e) = d
Emitted == PrintT("SCN " \o ToJson([names |-> SetToSeq(declared), exprs |-> SetToSeq(ExprPool)]))
=============================================================================
