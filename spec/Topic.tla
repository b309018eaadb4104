-------------------------------- MODULE Topic -------------------------------
(***************************************************************************)
(* Topic names and topic filters (MQTT 3.1.1 / 5, chapter 4.7).            *)
(*                                                                         *)
(* Text is a byte string (UTF-8); "/", "+", "#" and "$" are single bytes   *)
(* in UTF-8 and never part of another character, so levels can be cut at   *)
(* byte 47.                                                                *)
(*                                                                         *)
(* Two definitions of matching are given.  Matches is the declarative one, *)
(* level by level as the standard words it.  Step/Scan is the level-by-    *)
(* level automaton an implementation runs.  MCTopic.tla checks that they   *)
(* agree and that coverage between filters is sound.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

SLASH == 47   PLUS == 43   HASH == 35   DOLLAR == 36

Contains(s, b) == \E k \in DOMAIN s : s[k] = b

\* The levels of a text: what lies between the slashes; always at least one.
Levels(s) ==
  LET \* the places of the slashes, in order
      cut  == SelectSeq([k \in DOMAIN s |-> k], LAMBDA k : s[k] = SLASH)
      n    == Len(cut)
      From(k) == IF k = 1 THEN 1 ELSE cut[k - 1] + 1
      To(k)   == IF k = n + 1 THEN Len(s) ELSE cut[k] - 1
  IN  [k \in 1..(n + 1) |-> SubSeq(s, From(k), To(k))]

-----------------------------------------------------------------------------
(* Validity                                                                *)

HasWildcards(s) == Contains(s, PLUS) \/ Contains(s, HASH)
ValidTopic(s)   == ~HasWildcards(s)

ValidFilter(s) ==
  /\ s # <<>>
  /\ LET l == Levels(s) IN
       \A k \in DOMAIN l :
         /\ Contains(l[k], HASH) => (l[k] = <<HASH>> /\ k = Len(l))
         /\ Contains(l[k], PLUS) => l[k] = <<PLUS>>

-----------------------------------------------------------------------------
(* Matching, declaratively.  f is a valid filter, t a topic name.          *)

\* The rule over levels, whatever a level is: ProofTopic proves its laws for
\* topics and filters of any depth.
Rule == INSTANCE LevelRule WITH Plus <- <<PLUS>>, Hash <- <<HASH>>

LevelOk(fl, tl)   == Rule!LevelOk(fl, tl)
MatchLevels(T, F) == Rule!MatchLevels(T, F)

Reserved(t) == t # <<>> /\ t[1] = DOLLAR

Matches(t, f) == ~Reserved(t) /\ MatchLevels(Levels(t), Levels(f))

-----------------------------------------------------------------------------
(* Coverage of filters: semantically, over a set of topics.                *)

CoversOn(a, b, topics) == \A t \in topics : Matches(t, b) => Matches(t, a)

(* Coverage, syntactically: the largest relation the standard's level      *)
(* rules justify level by level.  # stands for everything that is left     *)
(* (including nothing), + for one level that is not #.                     *)
Covers(a, b) == ~Reserved(b) /\ Rule!CoverLevels(Levels(a), Levels(b))

(* Coverage decided over all topics: a covers b iff it matches the hardest *)
(* topics of b, those with a level of their own (Fresh, which is not UTF-8 *)
(* and so occurs in no text) wherever b does not say what the level is.    *)
Fresh == <<255>>
Hardest(B, n) ==
  LET lit == [k \in DOMAIN B |-> IF B[k] = <<PLUS>> THEN Fresh ELSE B[k]] IN
  IF B[Len(B)] = <<HASH>>
  THEN {SubSeq(lit, 1, Len(B) - 1) \o [k \in 1..m |-> Fresh] : m \in 0..n} \ {<<>>}
  ELSE {lit}
CoversAll(a, b) ==
  LET A == Levels(a) IN
  Reserved(b) \/ \A t \in Hardest(Levels(b), Len(A) + 1) : MatchLevels(t, A)
(* Of the topics that are longer and longer, three decide (MCTopic).       *)
CoversSem(a, b) ==
  LET A == Levels(a) IN
  Reserved(b) \/ \A t \in Hardest(Levels(b), 2) : MatchLevels(t, A)

-----------------------------------------------------------------------------
(* The automaton: consume filter levels one by one against topic levels.   *)

RECURSIVE Scan(_, _, _, _)
Scan(T, F, i, j) ==
  IF j > Len(F) THEN i > Len(T)
  ELSE IF F[j] = <<HASH>> THEN TRUE
  ELSE IF i > Len(T) THEN FALSE
  ELSE IF T[i] = <<HASH>> THEN FALSE
  ELSE IF F[j] = <<PLUS>> \/ F[j] = T[i] THEN Scan(T, F, i + 1, j + 1)
  ELSE FALSE

MatchesByScan(t, f) == ~Reserved(t) /\ Scan(Levels(t), Levels(f), 1, 1)
=============================================================================
