---------------------------- MODULE MC_FileReplace ----------------------------
(* The way files are replaced (new content into a file of another name, synced,   *)
(* then renamed), with failures and crashes at every point: the files' contents    *)
(* survive in every state.  Sound # "yes" leaves out a step, to show that the       *)
(* invariants notice.                                                            *)
EXTENDS FileReplace
CONSTANTS Files, Chunks, Sound
VARIABLES pc, file, wrote, status
mvars == <<fvars, pc, file, wrote, status>>
Order == CHOOSE s \in [1..Cardinality(Files) -> Files] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j
OldText == "oldold"
RECURSIVE Repeat(_)
Repeat(n) == IF n = 0 THEN "" ELSE Repeat(n - 1) \o "new"
Tmp(p) == p \o ".tmp"
Init ==
  /\ names = [p \in Files \cup {"other"} |-> IF p = "other" THEN 100 ELSE CHOOSE i \in DOMAIN Order : Order[i] = p]
  /\ data = [i \in (DOMAIN Order) \cup {100} |-> OldText] /\ disk = data
  /\ fds = [x \in {} |-> 0] /\ old = [p \in DOMAIN names |-> OldText] /\ new = [p \in Files |-> Repeat(Chunks)] /\ failed = FALSE
  /\ pc = "open" /\ file = 1 /\ wrote = 0 /\ status = -1
Cur == Order[file]
Steps ==
  \/ pc = "open" /\ Open(IF Sound = "inplace" THEN Cur ELSE Tmp(Cur), 3, Sound = "inplace", FALSE) /\ pc' = "write" /\ wrote' = 0 /\ UNCHANGED <<file, status>>
  \/ pc = "write" /\ wrote < Chunks /\ Write(3, "new") /\ wrote' = wrote + 1 /\ UNCHANGED <<pc, file, status>>
  \/ pc = "write" /\ wrote = Chunks /\ pc' = (IF Sound = "nosync" THEN "close" ELSE "sync") /\ UNCHANGED <<fvars, file, wrote, status>>
  \/ pc = "sync" /\ Sync(3) /\ pc' = "close" /\ UNCHANGED <<file, wrote, status>>
  \/ pc = "close" /\ Close(3) /\ pc' = (IF Sound = "inplace" THEN "next" ELSE "rename") /\ UNCHANGED <<file, wrote, status>>
  \/ pc = "rename" /\ Rename(Tmp(Cur), Cur) /\ pc' = "next" /\ UNCHANGED <<file, wrote, status>>
  \/ pc = "next" /\ file < Cardinality(Files) /\ file' = file + 1 /\ pc' = "open" /\ UNCHANGED <<fvars, wrote, status>>
  \/ pc = "next" /\ file = Cardinality(Files) /\ pc' = "done" /\ status' = 0 /\ UNCHANGED <<fvars, file, wrote>>
\* Any operation may fail, which ends the program with an error, after it has tried to remove what it
\* has made; a write may fail after it has written a part.  The program may be killed at any point.
Failure(p) == pc' = p /\ status' = (IF Sound = "ignore" /\ pc \in {"write", "sync"} THEN 0 ELSE 1) /\ UNCHANGED <<file, wrote>>
Faults ==
  \/ pc \in {"open", "write", "sync", "close", "rename"} /\ Fail /\ Failure(IF pc = "open" THEN "done" ELSE "clean")
  \/ pc = "write" /\ wrote < Chunks /\ Write(3, "ne") /\ Failure("clean")
  \/ pc = "clean" /\ Unlink(Tmp(Cur)) /\ pc' = "done" /\ UNCHANGED <<file, wrote, status>>
  \/ pc = "clean" /\ Fail /\ pc' = "done" /\ UNCHANGED <<file, wrote, status>>
Killed == pc # "done" /\ pc' = "done" /\ status' = 137 /\ UNCHANGED <<fvars, file, wrote>>
Next == Steps \/ Faults \/ Killed
MCSpec == Init /\ [][Next]_mvars
Ends == pc = "done" => FailureShows(status)
=============================================================================
