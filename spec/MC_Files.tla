------------------------------ MODULE MC_Files ------------------------------
(* Small directories, explored exhaustively: starting from a few entries in the  *)
(* standard files, entries are moved behind includes and files are split.  What   *)
(* is read stays the same in every reachable layout.                             *)
EXTENDS Files, Json
CONSTANTS MaxSteps, Emit
VARIABLES fs, steps
mvars == <<lvars, fs, steps>>

E(k) == [kind |-> "txn", e |-> k]
F(name, items) == [name |-> name, items |-> items]
Inc(path) == [kind |-> "include", e |-> [path |-> path, base |-> "file"]]
Start == <<F("commodities.coin", <<>>), F("accounts.coin", <<>>), F("transactions.coin", <<E(1), E(2), E(3)>>)>>
Read(d) == LET r == ReadAll(d) IN IF r.ok THEN [i \in 1..Len(r.out) |-> r.out[i].e] ELSE <<0>>

NewNames == {"s/x.inc", "s/y.inc", "z.inc", "s/t/w.inc"}
\* The path of g as written in file f.
Up(f) == Repeat("../", Len(DirParts(f)))
Init == LInit /\ fs = Start /\ steps = 0
\* A run of items of a file goes to a new file that is included in their place.
MoveOut ==
  \E i \in 1..Len(fs) : \E a \in 1..Len(fs[i].items) : \E b \in a..Len(fs[i].items) :
  \E g \in NewNames \ FileNames(fs) :
     fs' = Append([fs EXCEPT ![i].items = SubSeq(@, 1, a - 1) \o <<Inc(Up(fs[i].name) \o g)>> \o SubSeq(@, b + 1, Len(@))],
                  F(g, LET its == SubSeq(fs[i].items, a, b) IN
                       [k \in 1..Len(its) |-> IF its[k].kind # "include" THEN its[k]
                          ELSE Inc(Up(g) \o Join(TargetParts(its[k].e, fs[i].name), "/"))]))
\* transactions.coin is split into several files in name order.
SplitTop ==
  \E i \in 1..Len(fs) : fs[i].name = "transactions.coin" /\ \E a \in 0..Len(fs[i].items) :
     fs' = SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs))
           \o <<F("ta.coin", SubSeq(fs[i].items, 1, a)), F("tb.coin", SubSeq(fs[i].items, a + 1, Len(fs[i].items)))>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (MoveOut \/ SplitTop) /\ UNCHANGED lvars
MCSpec == Init /\ [][Next]_mvars
SameEntries == Read(fs) = <<1, 2, 3>>
Emitted == Emit => PrintT("SCN " \o ToJson([fs |-> fs]))
\* Layouts that cannot be read.
Loop == ~ReadAll(<<F("commodities.coin", <<>>), F("accounts.coin", <<>>), F("transactions.coin", <<E(1), Inc("transactions.coin")>>)>>).ok
Loop2 == ~ReadAll(<<F("commodities.coin", <<>>), F("accounts.coin", <<>>), F("transactions.coin", <<Inc("x.inc")>>), F("x.inc", <<Inc("./transactions.coin")>>)>>).ok
Missing == ~ReadAll(<<F("commodities.coin", <<>>), F("accounts.coin", <<>>), F("transactions.coin", <<Inc("x.inc")>>)>>).ok
Wild == ReadAll(<<F("commodities.coin", <<>>), F("accounts.coin", <<>>), F("transactions.coin", <<Inc("x*.inc")>>)>>).ok
Unreadable == Loop /\ Loop2 /\ Missing /\ Wild
=============================================================================
