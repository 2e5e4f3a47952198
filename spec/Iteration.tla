------------------------------- MODULE Iteration -------------------------------
(* Answering from a collection that is visited in any order (a map): the items are *)
(* put in their places one by one, by their keys, an item after those of the same   *)
(* key (a stable order).  The answer depends on the order of the visit exactly if    *)
(* keys tie.                                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Items, Key(_)
VARIABLES left, shown
ivars == <<left, shown>>
Init == left = Items /\ shown = <<>>
Place(x) == LET k == Cardinality({i \in 1..Len(shown) : Key(shown[i]) <= Key(x)}) IN
            SubSeq(shown, 1, k) \o <<x>> \o SubSeq(shown, k + 1, Len(shown))
Visit(x) == x \in left /\ left' = left \ {x} /\ shown' = Place(x)
Next == \E x \in left : Visit(x)
Spec == Init /\ [][Next]_ivars
\* The one answer there should be.
Answer == SetToSortSeq(Items, LAMBDA x, y : Key(x) < Key(y) \/ (Key(x) = Key(y) /\ x < y))
OneAnswer == left = {} => shown = Answer
=============================================================================
