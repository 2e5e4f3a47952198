----------------------------- MODULE FileReplace -----------------------------
(* Files as the operating system keeps them, and what replacing a file must not  *)
(* do to them.  Names refer to inodes; an inode has the content that programs      *)
(* see and the content that is on the disk for sure (as of the last sync); a       *)
(* crash of the machine may leave anything between the two.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES names,    \* [path -> inode]
          data,     \* [inode -> content], a string
          disk,     \* the content that is on the disk
          fds,      \* [descriptor -> [ino, pos, app]]
          old, new, \* the original contents of all files; the wanted contents of the files to be replaced
          failed    \* an operation on a file has failed
fvars == <<names, data, disk, fds, old, new, failed>>

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Fresh == CHOOSE i \in 1..(Cardinality(DOMAIN data) + 1) : i \notin DOMAIN data

\* contents: the files there are; wanted: the new contents of those to be replaced.
Start(contents, wanted) ==
  \E order \in {CHOOSE s \in [1..Cardinality(DOMAIN contents) -> DOMAIN contents] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j} :
  /\ names' = [p \in DOMAIN contents |-> CHOOSE i \in DOMAIN order : order[i] = p]
  /\ data' = [i \in DOMAIN order |-> contents[order[i]]]
  /\ disk' = [i \in DOMAIN order |-> contents[order[i]]]
  /\ fds' = [x \in {} |-> 0] /\ old' = contents /\ new' = wanted /\ failed' = FALSE

-----------------------------------------------------------------------------
(* System calls.                                                               *)
Open(path, fd, trunc, app) ==
  /\ IF path \in DOMAIN names
     THEN /\ fds' = Put(fds, fd, [ino |-> names[path], pos |-> 0, app |-> app]) /\ UNCHANGED <<names, disk>>
          /\ data' = IF trunc THEN [data EXCEPT ![names[path]] = ""] ELSE data
     ELSE \E i \in {Fresh} :
          /\ names' = Put(names, path, i) /\ data' = Put(data, i, "") /\ disk' = Put(disk, i, "")
          /\ fds' = Put(fds, fd, [ino |-> i, pos |-> 0, app |-> app])
  /\ UNCHANGED <<old, new, failed>>
Cut(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Over(s, pos, chunk) == Cut(s, pos) \o chunk \o SubSeq(s, pos + Len(chunk) + 1, Len(s))
Write(fd, chunk) ==
  /\ fd \in DOMAIN fds
  /\ LET f == fds[fd] at == IF f.app THEN Len(data[f.ino]) ELSE f.pos IN
     /\ data' = [data EXCEPT ![f.ino] = Over(@, at, chunk)]
     /\ fds' = [fds EXCEPT ![fd].pos = at + Len(chunk)]
  /\ UNCHANGED <<names, disk, old, new, failed>>
WriteAt(fd, pos, chunk) ==
  /\ fd \in DOMAIN fds
  /\ data' = [data EXCEPT ![fds[fd].ino] = Over(@, pos, chunk)]
  /\ UNCHANGED <<names, disk, fds, old, new, failed>>
Seek(fd, pos) == fds' = [fds EXCEPT ![fd].pos = pos] /\ UNCHANGED <<names, data, disk, old, new, failed>>
Truncate(i, size) == data' = [data EXCEPT ![i] = Cut(@, size)] /\ UNCHANGED <<names, disk, fds, old, new, failed>>
Sync(fd) ==
  /\ fd \in DOMAIN fds
  /\ disk' = [disk EXCEPT ![fds[fd].ino] = data[fds[fd].ino]]
  /\ UNCHANGED <<names, data, fds, old, new, failed>>
Close(fd) == fds' = Drop(fds, fd) /\ UNCHANGED <<names, data, disk, old, new, failed>>
Rename(a, b) ==
  /\ a \in DOMAIN names
  /\ names' = Drop(Put(names, b, names[a]), a)
  /\ UNCHANGED <<data, disk, fds, old, new, failed>>
Link(a, b) == names' = Put(names, b, names[a]) /\ UNCHANGED <<data, disk, fds, old, new, failed>>
Unlink(a) == names' = Drop(names, a) /\ UNCHANGED <<data, disk, fds, old, new, failed>>
\* An operation on a file failed; it changed nothing.
Fail == failed' = TRUE /\ UNCHANGED <<names, data, disk, fds, old, new>>

-----------------------------------------------------------------------------
Targets == DOMAIN new
OldOrNewIs(path, content) == content = old[path] \/ content = new[path]
\* At every moment, for programs and on the disk.
NeverLost == \A p \in Targets : p \in DOMAIN names /\ OldOrNewIs(p, data[names[p]])
NeverLostOnDisk == \A p \in Targets : p \in DOMAIN names => OldOrNewIs(p, disk[names[p]])
OthersUntouched == \A p \in DOMAIN old \ Targets : p \in DOMAIN names /\ data[names[p]] = old[p]

\* A file of this name would be read as part of a ledger.
LedgerFile(p) == \E e \in {".coin", ".prices"} : Len(p) >= Len(e) /\ SubSeq(p, Len(p) - Len(e) + 1, Len(p)) = e
NothingToBeRead == \A p \in DOMAIN names \ DOMAIN old : ~LedgerFile(p)

\* After the program has ended: it succeeded only if all files have their new contents,
\* and without any failure it succeeds.
AllNew == \A p \in Targets : p \in DOMAIN names /\ data[names[p]] = new[p]
FailureShows(status) == status = 0 => AllNew
=============================================================================
