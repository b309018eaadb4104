----------------------------- MODULE ProofLane ------------------------------
(***************************************************************************)
(* What Lane guarantees, proved for streams of any length, frames of any   *)
(* size, chunks of any size and any number of steps.                       *)
(*   tlapm --strict ProofLane.tla                                          *)
(***************************************************************************)
EXTENDS Lane, TLAPS

THEOREM Safe == Spec => []Inv
<1> USE DEF Inv, Rising
<1>1 Init => Inv  BY DEF Init
<1>2 Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'  OBVIOUS
  <2>1 CASE Put
    <3>1 \A j \in 1..Len(ends') : ends'[j] <= put'
      <4> TAKE j \in 1..Len(ends')
      <4>1 CASE j <= Len(ends)
        <5>1 j \in 1..Len(ends) BY <4>1, <2>1 DEF Put
        <5>2 ends'[j] = ends[j] /\ ends[j] <= put /\ put <= put'  BY <5>1, <2>1 DEF Put
        <5>3 ends[j] \in Nat BY <5>1
        <5> QED BY <5>2, <5>3, <2>1 DEF Put
      <4>2 CASE j > Len(ends)
        BY <4>2, <2>1 DEF Put
      <4> QED BY <4>1, <4>2, <2>1 DEF Put
    <3>2 \A j \in 1..done' : ends'[j] <= here'
      BY <2>1 DEF Put
    <3> QED BY <3>1, <3>2, <2>1 DEF Put
  <2>2 CASE Deliver  BY <2>2 DEF Deliver
  <2>3 CASE Read  BY <2>3 DEF Read
  <2>4 CASE UNCHANGED vars  BY <2>4 DEF vars
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

THEOREM Wholly == Spec => []Removed
<1>1 Inv => Removed  BY DEF Inv, Removed, Begin, Rising
<1> QED BY <1>1, Safe, PTL

THEOREM Chunks == Spec => []Independent
<1>1 Inv => Independent
  <2> SUFFICES ASSUME Inv, Idle, NEW j \in 1..Len(ends) PROVE ends[j] <= here <=> j <= done
    BY DEF Independent
  <2>1 CASE j <= done  BY <2>1 DEF Inv
  <2>2 CASE j > done
    <3>1 done < Len(ends) /\ done + 1 \in 1..Len(ends) BY <2>2 DEF Inv
    <3>2 ends[done + 1] > here  BY <3>1 DEF Idle, Inv
    <3>3 ends[j] >= ends[done + 1]  BY <2>2, <3>1 DEF Inv, Rising
    <3> QED BY <2>2, <3>1, <3>2, <3>3 DEF Inv
  <2> QED BY <2>1, <2>2 DEF Inv
<1> QED BY <1>1, Safe, PTL

THEOREM AllOfThem == Spec => []Complete
<1>1 Inv => Complete  BY DEF Inv, Complete, Idle
<1> QED BY <1>1, Safe, PTL

THEOREM Requests == Spec => []Asked
<1>1 Inv => Asked
  <2> SUFFICES ASSUME Inv, Idle, done < Len(ends)
      PROVE /\ Missing >= 1
            /\ here + Missing <= put
            /\ \A n \in Nat : (ends[done + 1] <= here + n) <=> n >= Missing
            /\ \A j \in 1..Len(ends) : j > done + 1 => ends[j] > here + Missing
    BY DEF Asked
  <2>1 done + 1 \in 1..Len(ends) /\ ends[done + 1] \in Nat  BY DEF Inv
  <2>2 ends[done + 1] > here  BY DEF Idle, Inv
  <2> QED BY <2>1, <2>2 DEF Missing, Inv, Rising
<1> QED BY <1>1, Safe, PTL

\* A frame once readable stays so, and nothing that was read is ever unread.
THEOREM Final == Spec => [][done' >= done /\ here' >= here /\ put' >= put]_vars
<1>1 Inv /\ [Next]_vars => [done' >= done /\ here' >= here /\ put' >= put]_vars
  BY DEF Inv, Next, Put, Deliver, Read, vars
<1> QED BY <1>1, Safe, PTL DEF Spec
=============================================================================
