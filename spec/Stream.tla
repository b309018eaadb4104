-------------------------------- MODULE Stream ------------------------------
(***************************************************************************)
(* A connection: a writer appends packets to its buffer (here: the wire),  *)
(* the transport hands the bytes to the reader in chunks of any size, and  *)
(* the reader takes frames off the front of what it has.                   *)
(*                                                                         *)
(* Bytes may also be injected by a peer that does not use this library, so *)
(* any byte stream can occur.  What a reader does with a frame that is     *)
(* neither well-formed nor certainly malformed is its choice (Meanings),   *)
(* but it must be the same whatever the chunks are: the choice is fixed at *)
(* the start by the function the reader is (constant in a behaviour).      *)
(***************************************************************************)
EXTENDS Judge

VARIABLES ver,       \* protocol version spoken, 4 or 5 (never changes)
          limit,     \* the reader's size limit (never changes)
          wire,      \* bytes written and not yet delivered
          buf,       \* bytes delivered and not yet read
          sent,      \* (history) all bytes ever put on the wire
          written,   \* (history) packets written
          got,       \* (history) what the reads returned, requests for more excepted
          pure,      \* (history) no bytes were injected
          stuck      \* the reader refused a frame for its header
env == <<ver, limit>>
svars == <<ver, limit, wire, buf, sent, written, got, pure, stuck>>

SInit == /\ wire = <<>> /\ buf = <<>> /\ sent = <<>>
         /\ written = <<>> /\ got = <<>> /\ pure = TRUE /\ stuck = FALSE

-----------------------------------------------------------------------------
(* Writer *)

Write(p, b) ==
  /\ IsForm(ver, p, b)
  /\ wire' = wire \o b
  /\ sent' = sent \o b
  /\ written' = Append(written, p)
  /\ UNCHANGED <<env, buf, got, pure, stuck>>

\* A packet that cannot be sent leaves no trace.
WriteRefused(p) == Unsendable(p) /\ UNCHANGED svars

Inject(b) ==
  /\ wire' = wire \o b
  /\ sent' = sent \o b
  /\ pure' = FALSE
  /\ UNCHANGED <<env, buf, written, got, stuck>>

-----------------------------------------------------------------------------
(* Transport *)

Deliver(n) ==
  /\ n \in 1..Len(wire)
  /\ buf' = buf \o Prefix(wire, n)
  /\ wire' = Rest(wire, n)
  /\ UNCHANGED <<env, sent, written, got, pure, stuck>>

-----------------------------------------------------------------------------
(* Reader *)

\* The outcome the standard prescribes for a frame, where it prescribes one.
Outcome(f) ==
  LET r == Decode(ver, f) IN
  IF ~r.ok THEN [r |-> "err", e |-> r.e[1]] ELSE [r |-> "pkt", p |-> r.v]

V == Verdict(buf, limit)

ReadMore   == V.v = "more" /\ UNCHANGED svars
ReadRefuse == /\ V.v \in {"toolarge", "badlen"} /\ ~stuck
              /\ stuck' = TRUE
              /\ got' = Append(got, [r |-> "err", e |-> V.v])
              /\ UNCHANGED <<env, wire, buf, sent, written, pure>>
ReadFrame(out) ==
              /\ V.v = "frame"
              /\ buf' = Rest(buf, V.total)
              /\ got' = Append(got, out)
              /\ UNCHANGED <<env, wire, sent, written, pure, stuck>>
Read == ReadRefuse \/ (V.v = "frame" /\ ReadFrame(Outcome(Prefix(buf, V.total))))

-----------------------------------------------------------------------------
(* What reading all of a byte string at once gives. *)

RECURSIVE ReadAll(_)
ReadAll(b) ==
  LET v == Verdict(b, limit) IN
  CASE v.v = "more"  -> <<>>
    [] v.v \in {"toolarge", "badlen"} -> <<[r |-> "err", e |-> v.v]>>
    [] v.v = "frame" -> <<Outcome(Prefix(b, v.total))>> \o ReadAll(Rest(b, v.total))

(* Bytes that the reads removed from the front of what was sent. *)
Consumed == Len(sent) - Len(buf) - Len(wire)

-----------------------------------------------------------------------------
(* Invariants *)

\* C02: only whole frames are removed, from the front; nothing else is lost.
Conservation ==
  /\ Consumed >= 0
  /\ Rest(sent, Consumed) = buf \o wire

SameOutcome(a, b) == a.r = b.r /\ (IF a.r = "pkt" THEN Same(a.p, b.p) ELSE a.e = b.e)
SameOutcomes(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : SameOutcome(a[k], b[k])

\* C01: what was read plus what reading on would give is what reading
\* everything at once gives.
ChunkIndependence ==
  SameOutcomes(got \o (IF stuck THEN <<>> ELSE ReadAll(buf \o wire)), ReadAll(sent))

\* C21 (a packet above the reader's limit is refused and ends the reading)
InOrderExactlyOnce ==
  pure => LET good == IF stuck THEN SubSeq(got, 1, Len(got) - 1) ELSE got IN
          /\ Len(got) <= Len(written)
          /\ \A k \in DOMAIN good : good[k].r = "pkt" /\ Same(good[k].p, written[k])
          /\ stuck => V.v = "toolarge"
          /\ (wire = <<>> /\ V.v = "more") => Len(got) = Len(written)

\* C03: with the bytes asked for, and no fewer, the reader gets further; it
\* never asks for bytes of the next frame.
HintSound ==
  V.v = "more" =>
    /\ V.lo >= 1 /\ V.lo <= V.hi
    /\ LET all == buf \o wire IN
       (Verdict(all, limit).v = "frame") => Len(buf) + V.hi <= Verdict(all, limit).total

\* C04: nothing above the limit is ever returned
WithinLimit == V.v = "frame" => V.total <= limit + 5

\* A reader that is not stuck has nothing in hand that it could still return
Quiescent == wire = <<>> /\ (stuck \/ V.v = "more")
=============================================================================
