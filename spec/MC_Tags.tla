------------------------------- MODULE MC_Tags -------------------------------
(* Every note text up to a length over an alphabet that matters for tags.        *)
EXTENDS Tags, Json
CONSTANTS MaxLen, Alphabet
VARIABLE note
Alpha5 == {"#", "a", ":", ",", " "}
Alpha6 == {"#", "a", "-", ":", ",", " "}
MCInit == note = ""
MCNext == \E c \in Alphabet : Len(note) < MaxLen /\ note' = note \o c
MCSpec == MCInit /\ [][MCNext]_note
ts == TagsFrom(note, 1)
\* Keys are non-empty runs of key characters right after a #, as long as possible.
KeysInText == \A i \in 1..Len(ts) : ts[i][1] # "" /\ HasText(note, "#" \o ts[i][1])
                                   /\ \A k \in 1..Len(ts[i][1]) : Ch(ts[i][1], k) \in KeyChars
\* Values have no commas and no blanks around them.
ValuesTrimmed == \A i \in 1..Len(ts) : ~HasText(ts[i][2], ",") /\ Trim(ts[i][2]) = ts[i][2]
\* A note without # followed by a key character has no tags, any other one has.
SomeTag == (ts # <<>>) <=> \E i \in 1..(Len(note) - 1) : Ch(note, i) = "#" /\ Ch(note, i + 1) \in KeyChars
\* Each key has one value.
OneValue == \A x, y \in TagsOf(<<note>>) : x[1] = y[1] => x = y
Emitted == PrintT("SCN " \o ToJson([note |-> note]))
=============================================================================
