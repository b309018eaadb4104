-------------------------------- MODULE Lane --------------------------------
(***************************************************************************)
(* The connection without its bytes: what is left of Stream when a frame   *)
(* is only the position at which it ends.  Nothing here is bounded; the    *)
(* theorems of ProofLane (checked by TLAPS) hold for streams, frames and   *)
(* chunks of any size.  That Stream is a refinement of Lane is checked by  *)
(* TLC (MCStream, property LaneSpec).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES put,   \* how many bytes were put on the wire
          ends,  \* where the frames among them end that can be framed
          here,  \* how many of the bytes have arrived
          done   \* how many frames have been read
vars == <<put, ends, here, done>>

Rising(e) == \A i, j \in 1..Len(e) : i < j => e[i] < e[j]

Init == put = 0 /\ ends = <<>> /\ here = 0 /\ done = 0

\* More bytes are put on the wire; they may complete frames.
Put == /\ put' \in Nat /\ put' >= put
       /\ ends' \in Seq(Nat) /\ Len(ends') >= Len(ends)
       /\ \A j \in 1..Len(ends) : ends'[j] = ends[j]
       /\ \A j \in (Len(ends) + 1)..Len(ends') : ends'[j] > put /\ ends'[j] <= put'
       /\ Rising(ends')
       /\ UNCHANGED <<here, done>>
\* A chunk of any size arrives.
Deliver == /\ here' \in Nat /\ here' >= here /\ here' <= put
           /\ UNCHANGED <<put, ends, done>>
\* The next frame is read: all of it is here.
Read == /\ done < Len(ends) /\ ends[done + 1] <= here
        /\ done' = done + 1
        /\ UNCHANGED <<put, ends, here>>

Next == Put \/ Deliver \/ Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Inv == /\ put \in Nat /\ here \in Nat /\ done \in Nat /\ ends \in Seq(Nat)
       /\ here <= put /\ done <= Len(ends)
       /\ Rising(ends)
       /\ \A j \in 1..Len(ends) : ends[j] <= put
       /\ \A j \in 1..done : ends[j] <= here

\* Where the bytes begin that were not read yet.
Begin == IF done = 0 THEN 0 ELSE ends[done]
\* The reader cannot read on with what is here.
Idle == done = Len(ends) \/ ends[done + 1] > here

\* C02: what is removed from the front are whole frames, and never more than
\* what has arrived.
Removed == Begin <= here /\ (done > 0 => \E j \in 1..Len(ends) : Begin = ends[j])
\* C01: an idle reader has read exactly the frames that are here: how they came,
\* and when it tried, has left no trace.
Independent == Idle => \A j \in 1..Len(ends) : ends[j] <= here <=> j <= done
\* C21: in the end all of them.
Complete == (Idle /\ here = put) => done = Len(ends)
\* C03: if something is missing from a frame that will end, then that many
\* bytes complete it, fewer do not, and none of them is of the next frame.
Missing == ends[done + 1] - here
Asked == (Idle /\ done < Len(ends)) =>
           /\ Missing >= 1
           /\ here + Missing <= put
           /\ \A n \in Nat : (ends[done + 1] <= here + n) <=> n >= Missing
           /\ \A j \in 1..Len(ends) : j > done + 1 => ends[j] > here + Missing
=============================================================================
