------------------------------ MODULE GenStream -----------------------------
(***************************************************************************)
(* Behaviours of Stream to drive the library with.  The packets come from  *)
(* the universe Packets and are chosen at random, the schedule (what is    *)
(* written, what comes from a foreign peer, how the bytes are cut, when    *)
(* the reader looks) is the one TLC's simulation takes.  Each behaviour    *)
(* that comes to rest is appended to the file OUT as one JSON line.        *)
(***************************************************************************)
EXTENDS Stream, Packets, Json, IOUtils, CSV, Randomization

CONSTANTS MaxPuts, Limits

VARIABLES hist, puts, fin
gvars == <<svars, hist, puts, fin>>

Pool4 == SetToSeq(UNION {OfType(4, t) : t \in PacketTypes})
Pool5 == SetToSeq(UNION {OfType(5, t) : t \in PacketTypes})
\* computed once
ASSUME TLCSet(4, Pool4) /\ TLCSet(5, Pool5)
Pool  == TLCGet(ver)
Junk == << <<64, 1, 0>>, <<240, 0>>, <<0, 0>>, <<48, 0>>, <<48, 128, 128, 128, 128, 1>>, <<64, 2>>,
           <<224, 0>>, <<192, 128, 0>>, <<130, 2, 0, 1>>, <<50, 5, 0, 1, 97, 0, 0>>,
           <<54, 4, 0, 1, 97, 0>>, <<64, 3, 0, 1, 255>>, <<48, 255, 255, 255, 127, 0>>,
           <<32, 3, 0, 0, 0, 144, 3, 0, 7, 1>> >>

GInit == SInit /\ ver \in {4, 5} /\ limit \in Limits
         /\ hist = <<>> /\ puts = 0 /\ fin = FALSE

Do(op) == hist' = Append(hist, op)
GNext ==
  /\ ~fin
  /\ \/ /\ puts < MaxPuts /\ puts' = puts + 1 /\ UNCHANGED fin
        /\ \E k \in RandomSubset(1, DOMAIN Pool) :
             Write(Pool[k], Encode(ver, Pool[k])) /\ Do([a |-> "write", p |-> Pool[k]])
     \/ /\ puts < MaxPuts /\ puts' = puts + 1 /\ UNCHANGED fin
        /\ \E k \in RandomSubset(1, DOMAIN Pool) : \E f \in RandomSubset(1, WireForms(ver, Pool[k])) :
             Len(f) < 200 /\ Inject(f) /\ Do([a |-> "inject", b |-> f])
     \/ /\ puts < MaxPuts /\ puts' = puts + 1 /\ UNCHANGED fin
        /\ \E k \in RandomSubset(1, DOMAIN Junk) : Inject(Junk[k]) /\ Do([a |-> "inject", b |-> Junk[k]])
     \/ /\ puts < MaxPuts /\ puts' = puts + 1 /\ UNCHANGED fin
        /\ \E p \in RandomSubset(1, Unsendables(ver)) : WriteRefused(p) /\ Do([a |-> "write", p |-> p])
     \/ /\ wire # <<>> /\ UNCHANGED <<puts, fin>>
        /\ \E n \in {1, 2} \cup RandomSubset(1, 1..Len(wire)) :
             n <= Len(wire) /\ Deliver(n) /\ Do([a |-> "deliver", n |-> n])
     \/ /\ Read /\ Do([a |-> "read"]) /\ UNCHANGED <<puts, fin>>
     \/ /\ ReadMore /\ wire # <<>> /\ Do([a |-> "read"]) /\ UNCHANGED <<puts, fin>>
        /\ hist # <<>> /\ hist[Len(hist)].a # "read"
     \/ /\ puts = MaxPuts /\ wire = <<>> /\ (stuck \/ V.v = "more")
        /\ fin' = TRUE /\ UNCHANGED <<svars, hist, puts>>
GSpec == GInit /\ [][GNext]_gvars

Emit == (fin \/ Len(hist) = 60) => CSVWrite("%1$s", <<ToJson([k |-> "session", ver |-> ver, max |-> limit, ops |-> hist])>>,
                        IOEnv.OUT \o ".sessions")
=============================================================================
