------------------------------ MODULE LevelRule ------------------------------
(***************************************************************************)
(* Matching and covering over levels, whatever a level is.  T is a topic,  *)
(* F, A, B, C are filters: sequences of levels with at least one level.    *)
(* Separate so that ProofTopic can reason about topics of any depth.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Plus, Hash

LevelOk(fl, tl) == fl = Plus \/ fl = tl

\* The standard's rule, level by level.
MatchLevels(T, F) ==
  IF F[Len(F)] = Hash
  THEN /\ Len(T) >= Len(F) - 1
       /\ \A k \in 1..(Len(F) - 1) : LevelOk(F[k], T[k])
  ELSE /\ Len(T) = Len(F)
       /\ \A k \in 1..Len(F) : LevelOk(F[k], T[k])

\* a covers b, as far as the level rules justify it.
CoverLevels(A, B) ==
  LET multi == A[Len(A)] = Hash
      n     == IF multi THEN Len(A) - 1 ELSE Len(A)
  IN  /\ IF multi THEN Len(B) >= n ELSE Len(B) = n
      /\ \A k \in 1..n : B[k] # Hash /\ LevelOk(A[k], B[k])
==============================================================================
