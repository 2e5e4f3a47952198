----------------------------- MODULE MC_Rewriting -----------------------------
(* Small files of transactions, and ways to modify them, enumerated.             *)
EXTENDS Rewriting, Json
CONSTANTS MaxTxns, WithModify
VARIABLES picked, mod
mvars == <<lvars, picked, mod>>
Day0 == 18300

P(a, q, asserted, notes) == [acct |-> a, has |-> TRUE, q |-> q, com |-> "CAD", asserted |-> asserted, bal |-> q, balcom |-> IF asserted THEN "CAD" ELSE "", notes |-> notes]
Hole(a) == [acct |-> a, has |-> FALSE, q |-> 0, com |-> "", asserted |-> FALSE, bal |-> 0, balcom |-> "", notes |-> <<>>]
T(day, desc, notes, posts) == [day |-> day, code |-> "", desc |-> desc, notes |-> notes, posts |-> posts, loc |-> "x"]
Kinds ==
  {T(Day0 + d, desc, n, ps) :
     d \in {0, 1}, desc \in {"x", "y  z"}, n \in {<<>>, <<"#t">>},
     ps \in {<<P("A", 5, FALSE, <<>>), P("B", -5, FALSE, <<>>)>>,
             <<P("A", 5, TRUE, <<"#p:v">>), Hole("A:C")>>,
             <<P("A", 1, FALSE, <<"n", "#p">>), P("A:C", 2, FALSE, <<"#p:v, m">>), P("A", -3, TRUE, <<>>)>>}}
AltOf(t) == <<[s |-> FALSE, e |-> FALSE, t |-> t]>>
TagX(inv, k, hasval, v) == [inv |-> inv, key |-> AltOf(k), hasval |-> hasval, val |-> IF hasval THEN AltOf(v) ELSE <<>>]
NoTagX == TagX(FALSE, "none", FALSE, "")
Mods ==
  {[hasp |-> p # "", p |-> IF p = "" THEN <<>> ELSE AltOf(p), hast |-> tt, t |-> IF tt THEN TagX(FALSE, "t", FALSE, "") ELSE NoTagX,
    hasa |-> a # "", a |-> a, haspt |-> pt, pt |-> IF pt THEN TagX(FALSE, "p", TRUE, "v") ELSE NoTagX, to |-> to, ptags |-> pg, ttags |-> tg] :
   p \in {"", "y"}, tt \in BOOLEAN, a \in {"", "A", "a:c"}, pt \in BOOLEAN, to \in {"", "B"}, pg \in {<<>>, <<"#new:w">>}, tg \in {<<>>, <<"#q">>}}

Init == LInit /\ picked = <<>> /\ mod = <<>>
Next ==
  \/ /\ phase = "open" /\ accts = <<>>
     /\ \E n \in 1..MaxTxns : \E s \in [1..n -> Kinds] : picked' = s
     /\ coms' = ("CAD" :> [dec |-> 2, name |-> "", sym |-> "", nomarket |-> FALSE])
     /\ accts' = [i \in 1..3 |-> [name |-> <<"A", "B", "A:C">>[i], com |-> "", dflt |-> "CAD", closed |-> FALSE, closedtext |-> "", desc |-> "", loc |-> ""]]
     /\ txns' = [i \in 1..Len(picked') |-> WithTags(picked'[i])]
     /\ UNCHANGED <<dflt, prices, phase, led, mod>>
  \/ accts # <<>> /\ LoadFile /\ UNCHANGED <<picked, mod>>
  \/ phase = "loaded" /\ WithModify /\ mod = <<>> /\ (\E m \in Mods : mod' = <<m>>) /\ UNCHANGED <<lvars, picked>>
MCSpec == Init /\ [][Next]_mvars

\* One way of writing transactions down, to be read back.
NoteLines(lead, ns) == [i \in 1..Len(ns) |-> lead \o "; " \o ns[i]]
PostLine(p) == "  " \o p.acct \o "  " \o p.amt \o (IF p.bal = "" THEN "" ELSE " = " \o p.bal)
RenderTxn(f) ==
  <<DateText(f.day) \o " " \o f.desc>> \o NoteLines("  ", f.notes)
  \o FlattenSeqs([k \in 1..Len(f.posts) |-> <<PostLine(f.posts[k])>> \o NoteLines("    ", f.posts[k].notes)]) \o <<"">>
Render(fs) == FlattenSeqs([i \in 1..Len(fs) |-> RenderTxn(fs[i])])

Is1 == phase = "loaded" /\ mod = <<>>
LoadsAlways == phase # "rejected"
ReadsBack == Is1 => LET x == Formatted(led, FALSE) r == ReadBack(Render(x), Day0) IN r.ok /\ r.txns = x
SqueezeOnce == Is1 => LET x == Formatted(led, TRUE) r == ReadBack(Render(x), Day0) IN r.ok /\ r.txns = x
EachOnce == Is1 => \A t \in {picked[i] : i \in 1..Len(picked)} :
   Cardinality({i \in 1..Len(picked) : picked[i] = t}) = Cardinality({i \in 1..Len(led.order) : WithTags(picked[led.order[i]]) = WithTags(t)})
InOrder == Is1 => \A i \in 1..(Len(led.order) - 1) :
   LET a == led.txns[led.order[i]] b == led.txns[led.order[i + 1]] IN
   a.day < b.day \/ (a.day = b.day /\ (~HasAssertion(a) \/ HasAssertion(b)))

\* What modifying keeps, whatever is asked for.
Mine(fs, n) == FlattenSeqs([i \in 1..Len(fs) |-> SelectSeq(fs[i].posts, LAMBDA p : p.acct = n)])
ModKeeps ==
  mod # <<>> => LET m == mod[1] x == Modified(led, m) f == Formatted(led, FALSE) tg == ModifiedTags(led, m) IN
    /\ ModifyOk(led, m)
    /\ Len(x) = Len(f)
    /\ \A n \in led.names : (m.to = "" \/ (n # ToAccount(led, m) /\ ~(m.hasa /\ n = FromAccount(led, m)) /\ ~m.haspt)) => Mine(x, n) = Mine(f, n)
    /\ \A i \in 1..Len(x) : Len(x[i].posts) = Len(f[i].posts) /\ \A k \in 1..Len(x[i].posts) : x[i].posts[k].amt = f[i].posts[k].amt
    /\ \A i \in 1..Len(x) : TagsOf(f[i].notes) \subseteq tg[i].tags
    /\ NumberChanged(led, m) <= Len(x)
    /\ (m.to = "" /\ m.ptags = <<>> /\ m.ttags = <<>>) => (x = f /\ NumberChanged(led, m) = 0)
Emitted == (phase = "loaded" /\ (mod # <<>>) = WithModify) => PrintT("SCN " \o ToJson([txns |-> picked, m |-> mod]))
=============================================================================
