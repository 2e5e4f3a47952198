-------------------------------- MODULE Files --------------------------------
(* How a database directory of files with include lines is read: which files,   *)
(* in which order, which entries, and when that is an error.                    *)
(* fs is a sequence of [name, items]; names are relative to the database        *)
(* directory; an item is [kind, e], where for kind "include" e is               *)
(* [path, base]: the path as written, after expansion of variables, and         *)
(* whether it is relative to the file ("file") or to the directory in which     *)
(* the program runs, here the database directory ("cwd").                       *)
EXTENDS Ledger

FileNames(fs) == {fs[i].name : i \in 1..Len(fs)}
ItemsOf(fs, f) == LET i == CHOOSE i \in 1..Len(fs) : fs[i].name = f IN fs[i].items

\* Path arithmetic.
RECURSIVE CleanParts(_, _)
CleanParts(ps, out) ==
  IF ps = <<>> THEN out
  ELSE LET p == ps[1] r == Tail(ps) IN
       IF p = "" \/ p = "." THEN CleanParts(r, out)
       ELSE IF p = ".." /\ out # <<>> /\ out[Len(out)] # ".." THEN CleanParts(r, SubSeq(out, 1, Len(out) - 1))
       ELSE CleanParts(r, Append(out, p))
DirParts(f) == LET p == Split(f, "/") IN SubSeq(p, 1, Len(p) - 1)
TargetParts(inc, f) == CleanParts((IF inc.base = "file" THEN DirParts(f) ELSE <<>>) \o Split(inc.path, "/"), <<>>)

\* One part of a path against a pattern with * wildcards.
RECURSIVE WildMatches(_, _)
WildMatches(pat, s) ==
  IF pat = "" THEN s = ""
  ELSE IF Ch(pat, 1) = "*" THEN \E i \in 1..(Len(s) + 1) : WildMatches(From(pat, 2), From(s, i))
  ELSE s # "" /\ (Ch(pat, 1) = "?" \/ Ch(pat, 1) = Ch(s, 1)) /\ WildMatches(From(pat, 2), From(s, 2))
PartsMatch(pp, sp) == Len(pp) = Len(sp) /\ \A i \in 1..Len(pp) : WildMatches(pp[i], sp[i])
\* Files matched by an include, in name order.
Included(fs, inc, f) ==
  LET pp == TargetParts(inc, f) IN SortStrings({n \in FileNames(fs) : PartsMatch(pp, Split(n, "/"))})
HasWild(path) == HasText(path, "*") \/ HasText(path, "?")

Err == [ok |-> FALSE, out |-> <<>>]
RECURSIVE ReadFile(_, _, _)
\* The entries of file f with its includes; [ok, out].  A file is read once each time it is named, at the
\* place of the include; open are the files being read, none of which can be included again.
ReadFile(fs, f, open) ==
  FoldLeft(LAMBDA acc, it :
     IF ~acc.ok THEN acc
     ELSE IF it.kind = "bad" THEN Err
     ELSE IF it.kind # "include" THEN [acc EXCEPT !.out = Append(@, it)]
     ELSE LET inc == Included(fs, it.e, f) IN
          IF (inc = <<>> /\ ~HasWild(it.e.path)) \/ \E i \in 1..Len(inc) : inc[i] \in open THEN Err
          ELSE FoldLeft(LAMBDA a, g :
                  IF ~a.ok THEN a
                  ELSE LET r == ReadFile(fs, g, open \cup {g}) IN IF r.ok THEN [a EXCEPT !.out = @ \o r.out] ELSE Err,
                  acc, inc),
     [ok |-> TRUE, out |-> <<>>], ItemsOf(fs, f))

\* The files of a database, in the order in which they are read.
Special == {"commodities.coin", "accounts.coin", "prices.coin"}
TopFiles(fs) ==
  LET top == {n \in FileNames(fs) : ~HasText(n, "/")} IN
  <<"commodities.coin">>
  \o (IF "prices.coin" \in top THEN <<"prices.coin">> ELSE SortStrings({n \in top : EndsWith(n, ".prices")}))
  \o <<"accounts.coin">>
  \o (IF "transactions.coin" \in top THEN <<"transactions.coin">>
      ELSE SortStrings({n \in top : EndsWith(n, ".coin")} \ Special))
ReadAll(fs) ==
  LET top == TopFiles(fs) IN
  IF ~{"commodities.coin", "accounts.coin"} \subseteq FileNames(fs) THEN Err
  ELSE FoldLeft(LAMBDA a, g :
          IF ~a.ok THEN a ELSE LET r == ReadFile(fs, g, {g}) IN IF r.ok THEN [a EXCEPT !.out = @ \o r.out] ELSE Err,
          [ok |-> TRUE, out |-> <<>>], top)

\* The default commodity as of the i-th entry.
DefaultAt(es, i) ==
  LET D == {k \in 1..(i - 1) : es[k].kind = "commodity" /\ es[k].e.default} IN
  IF D = {} THEN "CAD" ELSE es[CHOOSE k \in D : \A m \in D : m <= k].e.id

\* Enters all the entries of a database in the order in which they are read.
\* (\E over one value has TLC compute it once.)
EnterAll(r) ==
  IF ~r.ok THEN phase' = "rejected" /\ UNCHANGED <<coms, dflt, accts, prices, txns, led>>
  ELSE
  \E es \in {r.out} : \E D \in {[i \in 1..(Len(es) + 1) |-> DefaultAt(es, i)]} :
  LET Of(k) == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : es[i].kind = k) IN
  \E ca \in {Of("account")}, cc \in {Of("commodity")}, cp \in {Of("price")}, ct \in {Of("txn")} :
  /\ coms' = FoldLeft(LAMBDA acc, i : LET c == es[i].e IN
                (c.id :> [dec |-> c.dec, name |-> c.name, sym |-> c.sym, nomarket |-> c.nomarket]) @@ acc,
                [x \in {} |-> x], cc)
  /\ dflt' = D[Len(es) + 1]
  /\ accts' = [k \in 1..Len(ca) |-> LET a == es[ca[k]].e IN
                [name |-> a.name, com |-> a.com, dflt |-> D[ca[k]], closed |-> a.closed # "",
                 closedtext |-> a.closed, desc |-> a.desc, loc |-> a.loc]]
  /\ prices' = [k \in 1..Len(cp) |-> LET p == es[cp[k]].e IN
                [day |-> p.day, com |-> p.com, cur |-> p.cur, val |-> p.val, loc |-> p.loc]]
  /\ txns' = [k \in 1..Len(ct) |-> WithTags(es[ct[k]].e)]
  /\ UNCHANGED <<phase, led>>

ReadDatabase(fs) ==
  /\ phase = "open" /\ txns = <<>> /\ accts = <<>>
  /\ \E r \in {ReadAll(fs)} : EnterAll(r)
=============================================================================
