--------------------------- MODULE Trace_FileReplace ---------------------------
(* Checks the system calls of the real coin format -i, coin modify and coin test, *)
(* undisturbed, with failures and killed at various points, against FileReplace.  *)
EXTENDS FileReplace, TraceBase

VARIABLE l
tvars == <<fvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Contents(fs) == [p \in {fs[i].path : i \in DOMAIN fs} |-> fs[CHOOSE i \in DOMAIN fs : fs[i].path = p].content]
TraceInit == /\ names = <<>> /\ data = <<>> /\ disk = <<>> /\ fds = <<>> /\ old = <<>> /\ new = <<>> /\ failed = FALSE /\ l = 1

Begin == Is("begin") /\ UNCHANGED fvars
TStart == Is("start") /\ Start(Contents(Ev.files), Contents(Ev.wanted))
Safe ==
  /\ Require(l, "old or new content at every moment", NeverLost', [p \in DOMAIN new |-> IF p \in DOMAIN names' THEN data'[names'[p]] ELSE "gone"])
  /\ Require(l, "old or new content on the disk at every moment", NeverLostOnDisk', [p \in DOMAIN new |-> IF p \in DOMAIN names' THEN disk'[names'[p]] ELSE "gone"])
  /\ Require(l, "other files untouched", OthersUntouched', DOMAIN names')
  /\ Require(l, "nothing that would be read as part of the ledger", NothingToBeRead', DOMAIN names')
TOpen == Is("open") /\ Open(Ev.path, Ev.fd, Ev.trunc, Ev.app) /\ Safe
TWrite == Is("write") /\ Write(Ev.fd, Ev.chunk) /\ Safe
TWriteAt == Is("writeat") /\ WriteAt(Ev.fd, Ev.pos, Ev.chunk) /\ Safe
TSeek == Is("seek") /\ Seek(Ev.fd, Ev.pos)
TTruncFd == Is("truncfd") /\ Truncate(fds[Ev.fd].ino, Ev.size) /\ Safe
TTrunc == Is("trunc") /\ Truncate(names[Ev.path], Ev.size) /\ Safe
TSync == Is("sync") /\ Sync(Ev.fd) /\ Safe
TClose == Is("close") /\ Close(Ev.fd)
TRename == Is("rename") /\ Rename(Ev.a, Ev.b) /\ Safe
TLink == Is("link") /\ Link(Ev.a, Ev.b) /\ Safe
TUnlink == Is("unlink") /\ Unlink(Ev.a) /\ Safe
TFail == Is("fail") /\ Fail
\* The end of the program, and what is found in the files (again) then.
TExit ==
  /\ Is("exit")
  /\ LET real == Contents(Ev.files) IN
     /\ Require(l, "old or new content at the end", \A p \in Targets : p \in DOMAIN real /\ OldOrNewIs(p, real[p]), Ev.files)
     /\ Require(l, "other files untouched", \A p \in DOMAIN old \ Targets : p \in DOMAIN real /\ real[p] = old[p], Ev.files)
     /\ Require(l, "nothing left that would be read as part of the ledger", \A p \in DOMAIN real \ DOMAIN old : ~LedgerFile(p), DOMAIN real)
     /\ Require(l, "failure shows in the exit status", Ev.status = 0 => \A p \in Targets : p \in DOMAIN real /\ real[p] = new[p], [status |-> Ev.status, files |-> Ev.files])
     /\ Ev.undisturbed => Verdict(l, "undisturbed run succeeds", Ev.expected, Ev.status = 0)
     /\ Ev.undisturbed => Require(l, "nothing is left behind", DOMAIN real = DOMAIN old, DOMAIN real)
  /\ UNCHANGED fvars

TraceNext == Begin \/ TStart \/ TOpen \/ TWrite \/ TWriteAt \/ TSeek \/ TTruncFd \/ TTrunc \/ TSync \/ TClose \/ TRename \/ TLink \/ TUnlink \/ TFail \/ TExit
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
