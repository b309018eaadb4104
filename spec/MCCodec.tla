------------------------------- MODULE MCCodec ------------------------------
(***************************************************************************)
(* The life of one packet: it is made, written in one of the forms the     *)
(* standard allows, perhaps damaged on the way, and read.  TLC walks every *)
(* packet of the universe Packets, every form, and every damage of the     *)
(* kinds below.                                                            *)
(***************************************************************************)
EXTENDS Packets, Json, IOUtils

CONSTANT Vers        \* the protocol versions to walk

VARIABLES ver, stage, pkt, wire
vars == <<ver, stage, pkt, wire>>

Body(s) == LET n == VarIntAt(s, 2, Len(s)) IN SubSeq(s, 2 + n.len, Len(s))
Rebody(s, b) == <<s[1]>> \o PutVarInt(Len(b)) \o b
Cuts(s)   == LET b == Body(s) IN {Rebody(s, SubSeq(b, 1, k)) : k \in 0..(Len(b) - 1)}
Longer(s) == {Rebody(s, Body(s) \o <<x>>) : x \in {0, 38, 255}}
Retyped(s) == {<<x>> \o SubSeq(s, 2, Len(s)) : x \in {(16 * k) + (s[1] % 16) : k \in 0..15}} \ {s}
Damages(s) == Cuts(s) \cup Longer(s) \cup Retyped(s)

Init == /\ ver \in Vers /\ stage = "type" /\ wire = <<>>
        /\ pkt \in {[t |-> t] : t \in PacketTypes}
Make  == /\ stage = "type" /\ stage' = "made" /\ pkt' \in OfType(ver, pkt.t)
         /\ UNCHANGED <<ver, wire>>
Write == /\ stage = "made" /\ stage' = "wire" /\ wire' \in WireForms(ver, pkt)
         /\ UNCHANGED <<ver, pkt>>
Damage == /\ stage = "wire" /\ stage' = "damaged" /\ wire' \in Damages(wire)
          /\ UNCHANGED <<ver, pkt>>
Next == Make \/ Write \/ Damage
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The universe holds what it should: packets that can be sent.
Universe == stage = "made" => WellFormed(ver, pkt) /\ ~Unsendable(pkt)

\* C07..C12: a form has the packet's meaning and no other, and nothing but
\* the value itself can be odd about it.
RoundTrip == stage = "wire" => IsForm(ver, pkt, wire)

\* C17: the size follows from the header.
Sizes == stage = "wire" => Announced(wire) = Len(wire)

\* C03: what is asked for on the way is what is missing.
PrefixesAsk == stage = "wire" =>
  \A n \in 0..(Len(wire) - 1) :
    LET v == Verdict(Prefix(wire, n), MaxVarInt) IN
    /\ v.v = "more" /\ v.lo >= 1 /\ v.lo <= v.hi /\ n + v.hi <= Len(wire)
    /\ (n >= 2 /\ VarIntAt(wire, 2, n).st = "ok") => (v.lo = v.hi /\ n + v.hi = Len(wire))

\* C04: refused exactly when the declared length is above the limit, from the
\* moment the length field is complete.
Limits == stage = "wire" =>
  LET body == VarIntAt(wire, 2, Len(wire)) IN
  \A m \in {body.n, body.n + 1} \cup (IF body.n = 0 THEN {} ELSE {body.n - 1, 0}) :
    \A n \in (1 + body.len)..Len(wire) :
      (Verdict(Prefix(wire, n), m).v = "toolarge") <=> (body.n > m)

\* C13, C14: a damaged frame never passes for the packet.
NeverMisread == stage = "damaged" =>
  LET r == Decode(ver, wire) IN
  (r.ok /\ Same(r.v, pkt)) => (wire \in WireForms(ver, pkt) \/ r.d # {})

\* C20: whatever can be read can be written and read again.
Rewritable == stage \in {"wire", "damaged"} =>
  LET r == Decode(ver, wire) IN
  (r.ok /\ "emptylist" \notin r.d) =>
     LET e == Encode(ver, r.v) q == Decode(ver, e) IN
     q.ok /\ Same(q.v, r.v) /\ Encode(ver, q.v) = e

-----------------------------------------------------------------------------
(* The walk as input for the library: every packet, every form, and (one   *)
(* in IOEnv.SPARSE) every damaged frame.                                   *)

Packet(v, p) == [k |-> "packet", ver |-> v, p |-> p]
AFrame(v, s) == [k |-> "frame", ver |-> v, s |-> s]
Export ==
  LET Ps(v) == UNION {OfType(v, t) : t \in PacketTypes}
      packets == SetToSeq(UNION {{Packet(v, p) : p \in Ps(v) \cup Unsendables(v)} : v \in Vers})
      frames  == SetToSeq(UNION {{AFrame(v, s) : s \in UNION {WireForms(v, p) : p \in Ps(v)}} : v \in Vers})
  IN  /\ ndJsonSerialize(IOEnv.OUT \o ".packets", packets)
      /\ ndJsonSerialize(IOEnv.OUT \o ".frames", frames)
=============================================================================
