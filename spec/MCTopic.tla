------------------------------- MODULE MCTopic ------------------------------
(***************************************************************************)
(* A topic tree: filters are subscribed one by one, topics are published.  *)
(* TLC walks every text over a small alphabet up to a length, as topic and *)
(* as filter, and checks that the level-by-level automaton is the          *)
(* declarative definition, and that coverage means what it should.         *)
(***************************************************************************)
EXTENDS Topic, TLC

CONSTANTS Alphabet,   \* bytes that texts are made of
          MaxLen

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Filters == {f \in Texts : ValidFilter(f)}
Topics  == {t \in Texts : ValidTopic(t)}

VARIABLES a, b        \* two texts
vars == <<a, b>>

Init == a \in Texts /\ b = <<>>
\* b grows one byte at a time: the way a level is extended or a new one begun
Next == /\ Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)
        /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

\* C22: the automaton decides matching.
ScanIsMatch == (ValidTopic(a) /\ ValidFilter(b)) => (MatchesByScan(a, b) <=> Matches(a, b))

\* C22: laws of matching.
SelfMatch  == (ValidTopic(a) /\ a # <<>> /\ ~Reserved(a)) => Matches(a, a)
HashIsAll  == (ValidTopic(a) /\ ~Reserved(a)) => Matches(a, <<HASH>>)
Literal    == (ValidTopic(a) /\ ValidFilter(b) /\ ~HasWildcards(b)) =>
                 (Matches(a, b) <=> (a = b /\ ~Reserved(a)))
Parent     == (ValidTopic(a) /\ ValidFilter(b) /\ Matches(a, b)
               /\ ~(b[Len(b)] = HASH)) => Matches(a, b \o <<SLASH, HASH>>)
PlusDeep   == (ValidTopic(a) /\ ValidFilter(b) /\ Matches(a, b)) =>
                 (Levels(b)[Len(Levels(b))] # <<HASH>> => Len(Levels(a)) = Len(Levels(b)))

\* C23: a text is a valid filter exactly when every step of reading it byte
\* by byte is (a second definition, as an automaton).
RECURSIVE Auto(_, _, _)
\* st: 0 at the start of a level, 1 inside a literal one, 2 after a lone +,
\* 3 after a lone #
Auto(s, k, st) ==
  IF k > Len(s) THEN TRUE
  ELSE IF st = 3 THEN FALSE
  ELSE IF s[k] = SLASH THEN Auto(s, k + 1, 0)
  ELSE IF s[k] = HASH THEN st = 0 /\ Auto(s, k + 1, 3)
  ELSE IF s[k] = PLUS THEN st = 0 /\ Auto(s, k + 1, 2)
  ELSE st # 2 /\ Auto(s, k + 1, 1)
ValidIsAuto == ValidFilter(b) <=> (b # <<>> /\ Auto(b, 1, 0))

\* C24: what the level rules call covered is covered, on every topic at hand
\* and on the hardest ones; every covered filter is found.
CoverSound == (ValidFilter(a) /\ ValidFilter(b)) =>
   /\ Covers(a, b) => CoversSem(a, b)
   /\ CoversSem(a, b) => CoversOn(a, b, Topics)
   /\ CoversSem(a, b) <=> CoversAll(a, b)
CoverFound == (ValidFilter(a) /\ ValidFilter(b) /\ ~Reserved(b) /\ ~Contains(b, HASH)
               /\ CoversSem(a, b)) => Covers(a, b)
CoverSelf  == (ValidFilter(a) /\ ~Reserved(a)) => Covers(a, a)
CoverTrans == (ValidFilter(a) /\ ValidFilter(b) /\ Len(a) + Len(b) <= 6 /\ Covers(a, b)) =>
   \A c \in Filters : Covers(b, c) => Covers(a, c)
CoverMulti == (ValidFilter(a) /\ ValidFilter(b) /\ Covers(a, b) /\ Contains(b, HASH)) => Contains(a, HASH)
=============================================================================
