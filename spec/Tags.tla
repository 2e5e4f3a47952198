-------------------------------- MODULE Tags --------------------------------
(* Tags in notes: #key or #key: value, the value ending at a comma or the end. *)
EXTENDS Strs

KeyChars == WordChars \cup {"-", "/"}
RECURSIVE KeyEnd(_, _)
KeyEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in KeyChars THEN KeyEnd(s, i + 1) ELSE i
RECURSIVE CommaOrEnd(_, _)
CommaOrEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) # "," THEN CommaOrEnd(s, i + 1) ELSE i

\* The (key, value) pairs of a note in order of occurrence; a tag starts at #.
RECURSIVE TagsFrom(_, _)
TagsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) # "#" THEN TagsFrom(s, i + 1)
  ELSE LET e == KeyEnd(s, i + 1) IN
       IF e = i + 1 THEN TagsFrom(s, i + 1)
       ELSE LET key == SubSeq(s, i + 1, e - 1) IN
            IF e <= Len(s) /\ Ch(s, e) = ":" THEN
               LET x == CommaOrEnd(s, e + 1)
                   v == Trim(SubSeq(s, e + 1, x - 1)) IN
               IF v = "" THEN <<<<key, "">>>> \o TagsFrom(s, e)
               ELSE <<<<key, v>>>> \o TagsFrom(s, x)
            ELSE <<<<key, "">>>> \o TagsFrom(s, e)

\* The tags of a list of notes, later occurrences of a key replacing earlier ones.
TagsOf(notes) ==
  FoldLeft(LAMBDA acc, n :
     FoldLeft(LAMBDA a, kv : {p \in a : p[1] # kv[1]} \cup {kv}, acc, TagsFrom(n, 1)),
     {}, notes)
TagText(kv) == IF kv[2] = "" THEN kv[1] ELSE kv[1] \o ":" \o kv[2]
\* t2 over t1
TagsWith(t1, t2) == {p \in t1 : ~ \E q \in t2 : q[1] = p[1]} \cup t2

(* A tag expression: [inv, key |-> alts, hasval, val |-> alts]                  *)
SomeTagMatches(x, tags) ==
  \E kv \in tags : RexMatches(x.key, TRUE, kv[1]) /\ (~x.hasval \/ RexMatches(x.val, TRUE, kv[2]))
TagExprSelects(x, tags) == SomeTagMatches(x, tags) # x.inv
=============================================================================
