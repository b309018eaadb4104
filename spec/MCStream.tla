------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Bounded instance of Stream: a handful of small packets of each version, *)
(* a handful of foreign byte strings, every division into chunks.          *)
(***************************************************************************)
EXTENDS Stream

VARIABLE marks   \* where the frames in `sent` end
mvars == <<svars, marks>>
CONSTANTS Limit, MaxPuts, MaxInject, MaxBytes

\* Small packets; each is told apart from the others by its content.
P4 == << [t |-> "PingReq"],
         [t |-> "PubAck", pkid |-> 258, reason |-> "Success", props |-> <<>>],
         [t |-> "Publish", dup |-> FALSE, qos |-> 1, retain |-> TRUE, topic |-> <<97>>,
          pkid |-> 1, props |-> <<>>, payload |-> <<192, 0>>] >>
P5 == << [t |-> "Disconnect", reason |-> "ServerBusy", props |-> <<>>],
         [t |-> "PubRel", pkid |-> 258, reason |-> "Success", props |-> <<>>],
         [t |-> "Publish", dup |-> FALSE, qos |-> 0, retain |-> FALSE, topic |-> <<97>>,
          pkid |-> 0, props |-> << <<"UserProperty", <<0, 1, 97, 98>>>> >>, payload |-> <<208, 0>>] >>
Pool == IF ver = 4 THEN P4 ELSE P5
NoSend == [t |-> "Publish", dup |-> FALSE, qos |-> 1, retain |-> FALSE, topic |-> <<97>>,
           pkid |-> 0, props |-> <<>>, payload |-> <<>>]

\* Foreign bytes: a malformed frame, an unassigned type, a frame over the
\* limit, a length field that never ends, the first half of a frame.
Junk == << <<64, 1, 0>>, <<240, 0>>, <<48, 40>>, <<48, 128, 128, 128, 128>>, <<64, 2>> >>

MCInit == SInit /\ ver \in {4, 5} /\ limit = Limit /\ marks = <<>>

MCStep ==
  \/ /\ Len(written) < MaxPuts
     /\ \E k \in DOMAIN Pool : \E b \in Forms(ver, Pool[k]) : Write(Pool[k], b)
  \/ /\ Len(written) = 0 /\ WriteRefused(NoSend)
  \/ /\ MaxInject > 0 /\ (pure \/ MaxInject > 1) /\ Len(sent) < MaxBytes
     /\ \E k \in DOMAIN Junk : Inject(Junk[k])
  \/ \E n \in 1..Len(wire) : Deliver(n)
  \/ Read
  \/ ReadMore

RECURSIVE EndsFrom(_, _)
EndsFrom(b, at) ==
  LET v == Verdict(b, limit) IN
  IF v.v # "frame" THEN <<>> ELSE <<at + v.total>> \o EndsFrom(Rest(b, v.total), at + v.total)
MCNext == MCStep /\ marks' = IF sent' = sent THEN marks ELSE EndsFrom(sent', 0)

MCSpec == MCInit /\ [][MCNext]_mvars
          /\ WF_mvars(Read /\ UNCHANGED marks)
          /\ WF_mvars((\E n \in 1..Len(wire) : Deliver(n)) /\ UNCHANGED marks)

\* Without its bytes, the connection is a Lane.
L == INSTANCE Lane WITH put <- Len(sent), ends <- marks, here <- Len(sent) - Len(wire),
                        done <- Len(got) - (IF stuck THEN 1 ELSE 0)
LaneSpec == L!Spec
\* and what is proved of it is what is meant here
LaneMeans == L!Inv /\ L!Removed /\ L!Independent /\ L!Complete /\ L!Begin = Consumed

\* Everything sent is eventually dealt with (C01, C21).
Progress == <>[](Quiescent)
=============================================================================
