--------------------------------- MODULE Rex ---------------------------------
(* Regular expressions with groups, as data, and the leftmost match that takes   *)
(* the first alternative and the longest repetitions that work out.               *)
(*   [fold, groups, alts]: ignores case or not, number of groups, and the          *)
(*   alternatives, each a sequence of atoms                                        *)
(*     [k |-> "lit", t]                the text t                                  *)
(*     [k |-> "set", neg, t, min, max] min to max (-1 no limit) characters (not)   *)
(*                                     in t                                        *)
(*     [k |-> "open" / "close", n]     begin and end of group n                    *)
(*     [k |-> "bol" / "eol"]           begin and end of the text                   *)
EXTENDS Strs

NoMatch == [ok |-> FALSE, to |-> 0, caps |-> <<>>]
InSet(a, c) == HasText(a.t, c) # a.neg
RECURSIVE RunLen(_, _, _, _)
\* How many characters from p on are in the set, at most lim (-1: any number).
RunLen(text, a, p, lim) ==
  IF lim = 0 \/ p > Len(text) \/ ~InSet(a, Ch(text, p)) THEN 0 ELSE 1 + RunLen(text, a, p + 1, lim - 1)
RECURSIVE MatchSeq(_, _, _, _, _)
RECURSIVE TryRuns(_, _, _, _, _, _)
MatchSeq(text, seq, i, p, caps) ==
  IF i > Len(seq) THEN [ok |-> TRUE, to |-> p, caps |-> caps]
  ELSE LET a == seq[i] IN
    CASE a.k = "lit" -> IF ContainsAt(text, a.t, p) THEN MatchSeq(text, seq, i + 1, p + Len(a.t), caps) ELSE NoMatch
      [] a.k = "bol" -> IF p = 1 THEN MatchSeq(text, seq, i + 1, p, caps) ELSE NoMatch
      [] a.k = "eol" -> IF p = Len(text) + 1 THEN MatchSeq(text, seq, i + 1, p, caps) ELSE NoMatch
      [] a.k = "open" -> MatchSeq(text, seq, i + 1, p, [caps EXCEPT ![a.n] = <<p, p>>])
      [] a.k = "close" -> MatchSeq(text, seq, i + 1, p, [caps EXCEPT ![a.n] = <<@[1], p>>])
      [] a.k = "set" -> TryRuns(text, seq, i, p, caps, RunLen(text, a, p, a.max))
TryRuns(text, seq, i, p, caps, n) ==
  IF n < seq[i].min THEN NoMatch
  ELSE LET r == MatchSeq(text, seq, i + 1, p + n, caps) IN
       IF r.ok THEN r ELSE TryRuns(text, seq, i, p, caps, n - 1)

RECURSIVE MatchAlts(_, _, _, _)
MatchAlts(rx, text, p, i) ==
  IF i > Len(rx.alts) THEN NoMatch
  ELSE LET r == MatchSeq(text, rx.alts[i], 1, p, [g \in 1..rx.groups |-> <<1, 1>>]) IN
       IF r.ok THEN r ELSE MatchAlts(rx, text, p, i + 1)
RECURSIVE MatchFrom(_, _, _)
MatchFrom(rx, text, p) ==
  IF p > Len(text) + 1 THEN [ok |-> FALSE, from |-> 0, to |-> 0, caps |-> <<>>]
  ELSE LET r == MatchAlts(rx, text, p, 1) IN
       IF r.ok THEN [ok |-> TRUE, from |-> p, to |-> r.to, caps |-> r.caps] ELSE MatchFrom(rx, text, p + 1)
Folded(rx) == [rx EXCEPT !.alts = [i \in 1..Len(@) |-> [k \in 1..Len(@[i]) |-> IF @[i][k].k \in {"lit", "set"} THEN [@[i][k] EXCEPT !.t = Lower(@)] ELSE @[i][k]]]]
Match(rx, text) == IF rx.fold THEN MatchFrom(Folded(rx), Lower(text), 1) ELSE MatchFrom(rx, text, 1)
Found(rx, text) == Match(rx, text).ok
\* The groups of a match m of text; group 0 is all of it, a group that took no part or does not exist is empty.
Group(text, m, g) ==
  IF g = 0 THEN SubSeq(text, m.from, m.to - 1)
  ELSE IF g \in DOMAIN m.caps THEN SubSeq(text, m.caps[g][1], m.caps[g][2] - 1) ELSE ""
=============================================================================
