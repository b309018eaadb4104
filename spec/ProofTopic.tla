----------------------------- MODULE ProofTopic ------------------------------
(***************************************************************************)
(* Laws of matching for topics and filters of any depth (TLAPS):           *)
(*   - covering is reflexive, transitive, and sound (C24);                 *)
(*   - the scan an implementation makes, level after level, ends with the  *)
(*     answer of the rule (C22).                                           *)
(***************************************************************************)
EXTENDS LevelRule, TLAPS
CONSTANT Level
ASSUME Wild == Plus \in Level /\ Hash \in Level /\ Plus # Hash

Texts   == {s \in Seq(Level) : Len(s) >= 1}
Filters == {f \in Texts : \A k \in 1..Len(f) : f[k] = Hash => k = Len(f)}
Topics  == {t \in Texts : \A k \in 1..Len(t) : t[k] # Hash /\ t[k] # Plus}

THEOREM Reflexive == \A A \in Filters : CoverLevels(A, A)
  BY DEF Filters, Texts, CoverLevels, LevelOk

THEOREM Transitive ==
  \A A, B, C \in Filters : CoverLevels(A, B) /\ CoverLevels(B, C) => CoverLevels(A, C)
<1> SUFFICES ASSUME NEW A \in Filters, NEW B \in Filters, NEW C \in Filters,
                    CoverLevels(A, B), CoverLevels(B, C)
             PROVE CoverLevels(A, C)  OBVIOUS
<1> DEFINE n == IF A[Len(A)] = Hash THEN Len(A) - 1 ELSE Len(A)
           m == IF B[Len(B)] = Hash THEN Len(B) - 1 ELSE Len(B)
<1>1 n \in Nat /\ m \in Nat /\ Len(A) \in Nat /\ Len(B) \in Nat /\ Len(C) \in Nat
     /\ Len(A) >= 1 /\ Len(B) >= 1
  BY DEF Filters, Texts
<1>2 \A k \in 1..n : B[k] # Hash /\ LevelOk(A[k], B[k])  BY DEF CoverLevels
<1>3 \A k \in 1..m : C[k] # Hash /\ LevelOk(B[k], C[k])  BY DEF CoverLevels
<1>4 n <= m
  <2>1 n <= Len(B)  BY <1>1 DEF CoverLevels
  <2>2 B[Len(B)] = Hash => n # Len(B)  BY <1>1, <1>2
  <2> QED BY <1>1, <2>1, <2>2
<1>5 \A k \in 1..n : C[k] # Hash /\ LevelOk(A[k], C[k])
  <2> TAKE k \in 1..n
  <2>1 k \in 1..m  BY <1>1, <1>4
  <2> QED BY <1>2, <1>3, <2>1 DEF LevelOk
<1>6 IF A[Len(A)] = Hash THEN Len(C) >= n ELSE Len(C) = n
  <2>1 CASE A[Len(A)] = Hash  BY <2>1, <1>1, <1>4 DEF CoverLevels
  <2>2 CASE A[Len(A)] # Hash
    <3>1 Len(B) = n  BY <2>2 DEF CoverLevels
    <3>2 B[Len(B)] # Hash  BY <3>1, <1>1, <1>2
    <3> QED BY <2>2, <3>1, <3>2 DEF CoverLevels
  <2> QED BY <2>1, <2>2
<1> QED BY <1>5, <1>6 DEF CoverLevels

\* C24: every topic of the covered filter is one of the covering filter.
THEOREM Sound ==
  \A A, B \in Filters : \A T \in Topics :
    CoverLevels(A, B) /\ MatchLevels(T, B) => MatchLevels(T, A)
<1> SUFFICES ASSUME NEW A \in Filters, NEW B \in Filters, NEW T \in Topics,
                    CoverLevels(A, B), MatchLevels(T, B)
             PROVE MatchLevels(T, A)  OBVIOUS
<1> DEFINE n == IF A[Len(A)] = Hash THEN Len(A) - 1 ELSE Len(A)
           m == IF B[Len(B)] = Hash THEN Len(B) - 1 ELSE Len(B)
<1>1 n \in Nat /\ m \in Nat /\ Len(A) \in Nat /\ Len(B) \in Nat /\ Len(T) \in Nat
     /\ Len(A) >= 1 /\ Len(B) >= 1
  BY DEF Filters, Topics, Texts
<1>2 \A k \in 1..n : B[k] # Hash /\ LevelOk(A[k], B[k])  BY DEF CoverLevels
<1>3 \A k \in 1..m : LevelOk(B[k], T[k])  BY DEF MatchLevels
<1>4 n <= m
  <2>1 n <= Len(B)  BY <1>1 DEF CoverLevels
  <2>2 B[Len(B)] = Hash => n # Len(B)  BY <1>1, <1>2
  <2> QED BY <1>1, <2>1, <2>2
<1>5 \A k \in 1..n : LevelOk(A[k], T[k])
  <2> TAKE k \in 1..n
  <2>1 k \in 1..m  BY <1>1, <1>4
  <2> QED BY <1>2, <1>3, <2>1 DEF LevelOk
<1>6 CASE A[Len(A)] = Hash  BY <1>6, <1>1, <1>4, <1>5 DEF MatchLevels
<1>7 CASE A[Len(A)] # Hash
  <2>1 Len(B) = n  BY <1>7 DEF CoverLevels
  <2>2 B[Len(B)] # Hash  BY <2>1, <1>1, <1>2
  <2> QED BY <1>7, <2>1, <2>2, <1>5 DEF MatchLevels
<1> QED BY <1>6, <1>7

-----------------------------------------------------------------------------
(* The scan: levels of the filter are compared with levels of the topic    *)
(* one after another until the answer is known.                            *)
CONSTANTS Tp, Fl
ASSUME Given == Tp \in Topics /\ Fl \in Filters
VARIABLES at,      \* the level to look at next
          answer   \* "open" until known
svars == <<at, answer>>

ScanInit == at = 1 /\ answer = "open"
Look ==
  /\ answer = "open"
  /\ IF at > Len(Fl) THEN answer' = (IF at > Len(Tp) THEN "yes" ELSE "no") /\ at' = at
     ELSE IF Fl[at] = Hash THEN answer' = "yes" /\ at' = at
     ELSE IF at > Len(Tp) THEN answer' = "no" /\ at' = at
     ELSE IF LevelOk(Fl[at], Tp[at]) THEN at' = at + 1 /\ answer' = "open"
     ELSE answer' = "no" /\ at' = at
ScanSpec == ScanInit /\ [][Look]_svars

SInv == /\ at \in Nat /\ at >= 1 /\ at <= Len(Fl) + 1 /\ at <= Len(Tp) + 1
        /\ answer \in {"open", "yes", "no"}
        /\ \A k \in 1..(at - 1) : LevelOk(Fl[k], Tp[k]) /\ Fl[k] # Hash
        /\ answer = "yes" => MatchLevels(Tp, Fl)
        /\ answer = "no" => ~MatchLevels(Tp, Fl)

THEOREM ScanRight == ScanSpec => []SInv
<1>0 /\ Len(Fl) \in Nat /\ Len(Fl) >= 1 /\ Len(Tp) \in Nat /\ Len(Tp) >= 1
     /\ \A k \in 1..Len(Fl) : Fl[k] = Hash => k = Len(Fl)
  BY Given DEF Filters, Topics, Texts
<1>1 ScanInit => SInv  BY <1>0 DEF ScanInit, SInv
<1>2 SInv /\ [Look]_svars => SInv'
  <2> SUFFICES ASSUME SInv, [Look]_svars PROVE SInv'  OBVIOUS
  <2>1 CASE UNCHANGED svars  BY <2>1 DEF svars, SInv
  <2>2 CASE Look
    <3>1 CASE at > Len(Fl)
      <4>1 at = Len(Fl) + 1  BY <3>1, <1>0 DEF SInv
      <4>2 Fl[Len(Fl)] # Hash  BY <4>1, <1>0 DEF SInv
      <4>3 Len(Tp) >= Len(Fl)  BY <4>1, <1>0 DEF SInv
      <4>4 MatchLevels(Tp, Fl) <=> Len(Tp) = Len(Fl)  BY <4>1, <4>2, <1>0 DEF SInv, MatchLevels
      <4> QED BY <2>2, <3>1, <4>1, <4>3, <4>4, <1>0 DEF SInv, Look
    <3>2 CASE at <= Len(Fl) /\ Fl[at] = Hash
      <4>1 at = Len(Fl)  BY <3>2, <1>0 DEF SInv
      <4>2 MatchLevels(Tp, Fl)  BY <3>2, <4>1, <1>0 DEF SInv, MatchLevels
      <4> QED BY <2>2, <3>2, <4>1, <4>2, <1>0 DEF SInv, Look
    <3>3 CASE at <= Len(Fl) /\ Fl[at] # Hash /\ at > Len(Tp)
      <4>1 ~MatchLevels(Tp, Fl)  BY <3>3, <1>0 DEF SInv, MatchLevels
      <4> QED BY <2>2, <3>3, <4>1, <1>0 DEF SInv, Look
    <3>4 CASE at <= Len(Fl) /\ Fl[at] # Hash /\ at <= Len(Tp) /\ LevelOk(Fl[at], Tp[at])
      BY <2>2, <3>4, <1>0 DEF SInv, Look
    <3>5 CASE at <= Len(Fl) /\ Fl[at] # Hash /\ at <= Len(Tp) /\ ~LevelOk(Fl[at], Tp[at])
      <4>1 ~MatchLevels(Tp, Fl)  BY <3>5, <1>0 DEF SInv, MatchLevels
      <4> QED BY <2>2, <3>5, <4>1, <1>0 DEF SInv, Look
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <1>0 DEF SInv
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF ScanSpec

\* As long as the answer is not known there is a next step, and it brings the
\* scan nearer to its end: it ends within Len(Fl) + 1 steps.
Left == 2 * (Len(Fl) + 1 - at) + (IF answer = "open" THEN 1 ELSE 0)
THEOREM ScanEnds == ScanSpec => [][Left' < Left /\ Left' >= 0]_svars
<1>0 Len(Fl) \in Nat  BY Given DEF Filters, Texts
<1>1 SInv /\ SInv' /\ [Look]_svars => [Left' < Left /\ Left' >= 0]_svars
  BY <1>0, Given DEF SInv, Look, svars, Left
<1> QED BY <1>1, ScanRight, PTL DEF ScanSpec
==============================================================================
