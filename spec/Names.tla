-------------------------------- MODULE Names --------------------------------
(* Account names, the account tree and account expressions.                    *)
EXTENDS Strs

\* "A:B:C" |-> <<"A", "B", "C">>
Parts(n) == Split(n, ":")
ParentOf(n) == LET p == Parts(n) IN Join(SubSeq(p, 1, Len(p) - 1), ":")   \* "" for a top level name
LeafOf(n) == LET p == Parts(n) IN p[Len(p)]
Ancestors(n) == LET p == Parts(n) IN {Join(SubSeq(p, 1, i), ":") : i \in 1..(Len(p) - 1)}
IsUnder(n, a) == StartsWith(n, a \o ":")
\* All accounts there are, given the declared ones.
Closure(declared) == declared \cup UNION {Ancestors(n) : n \in declared} \cup {"Root", "Unbalanced"}
\* Every account but Root is under Root when it has no parent of its own.
TreeParent(n) == IF n = "Root" THEN "" ELSE IF ParentOf(n) = "" THEN "Root" ELSE ParentOf(n)
ChildrenIn(names, n) ==
  SetToSortSeq({c \in names : c # "Root" /\ TreeParent(c) = n}, LAMBDA a, b : StrLt(LeafOf(a), LeafOf(b)))
DepthOf(n) == IF n = "Root" THEN 1 ELSE Len(Parts(n))

(* An expression is a list of tokens: a character (any case), a boundary for   *)
(* one level with any text around it, any text, or an anchor.                  *)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(words, i, wordLast) ==
  IF i > Len(words) THEN <<>>
  ELSE IF words[i] = "" THEN (IF wordLast THEN <<"any">> ELSE <<>>) \o TokensFrom(words, i + 1, FALSE)
  ELSE (IF wordLast THEN <<"level">> ELSE <<>>) \o Chars(Lower(words[i])) \o TokensFrom(words, i + 1, TRUE)
ExprTokens(e) == LET w == Split(e, ":") IN Chars(Lower(w[1])) \o TokensFrom(w, 2, TRUE)

\* Positions (index of the next character) reachable by one token.
StepTok(name, P, tok) ==
  LET n == Len(name) IN
  IF tok = "^" THEN P \cap {1}
  ELSE IF tok = "$" THEN P \cap {n + 1}
  ELSE IF tok = "any" THEN {q \in 1..(n + 1) : \E p \in P : p <= q}
  ELSE IF tok = "level" THEN
    {q \in 1..(n + 1) : \E p \in P : p <= q /\ Cardinality({k \in p..(q - 1) : Ch(name, k) = ":"}) = 1}
  ELSE {p + 1 : p \in {r \in P : r <= n /\ Ch(name, r) = tok}}
ExprMatches(e, name) ==
  LET low == Lower(name) toks == ExprTokens(e) IN
  FoldLeft(LAMBDA P, t : StepTok(low, P, t), 1..(Len(name) + 1), toks) # {}

\* The account an expression denotes among names, "" if none or ambiguous.
Denotes(names, e) ==
  IF e \in names THEN e
  ELSE LET M == {n \in names : ExprMatches(e, n)} IN
       IF Cardinality(M) = 1 THEN CHOOSE n \in M : TRUE
       ELSE IF \E a \in M : \A n \in M : n = a \/ IsUnder(n, a)
            THEN CHOOSE a \in M : \A n \in M : n = a \/ IsUnder(n, a)
            ELSE ""

\* Account labels in reports: cut down to size from the left part on, keeping a character of each part.
ShortenName(n, size) ==
  IF Len(n) <= size THEN n
  ELSE LET f == FoldLeft(LAMBDA acc, part :
                  IF acc.over <= 0 \/ part = "" THEN [acc EXCEPT !.out = Append(@, part)]
                  ELSE LET drop == MinOf(acc.over, Len(part) - 1) IN
                       [over |-> acc.over - drop, out |-> Append(acc.out, SubSeq(part, 1, Len(part) - drop))],
                  [over |-> Len(n) - size, out |-> <<>>], Parts(n))
       IN Join(f.out, ":")
=============================================================================
