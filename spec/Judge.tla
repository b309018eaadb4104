-------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* What the properties C01..C27 say about one recorded call of the         *)
(* library.  A record describes the arguments and everything observable    *)
(* about the call: its outcome and the buffer afterwards.                  *)
(*                                                                         *)
(* Outcomes: [r |-> "pkt", p |-> packet], [r |-> "ok", n |-> number],      *)
(* [r |-> "err", e |-> name, n |-> number], [r |-> "panic"],               *)
(* [r |-> "hang"], [r |-> "abort"].                                        *)
(***************************************************************************)
EXTENDS Framing, Codec

Crashed(o) == o.r \in {"panic", "hang", "abort"}
IsErr(o)   == o.r = "err"
IsPkt(o)   == o.r = "pkt"
Asks(o)    == o.r = "err" /\ o.e = "InsufficientBytes"

\* Equality that TLC can evaluate on packets of different types.
Same(p, q)  == p.t = q.t /\ p = q
Gives(o, p) == IsPkt(o) /\ Same(o.p, p)
SameOut(a, b) ==
  /\ a.r = b.r
  /\ a.r = "pkt" => Same(a.p, b.p)
  /\ a.r = "ok"  => a.n = b.n
  /\ a.r = "err" => a.e = b.e /\ a.n = b.n

\* b is a legal way to write p.
IsForm(ver, p, b) ==
  /\ Verdict(b, MaxVarInt).v = "frame"
  /\ Verdict(b, MaxVarInt).total = Len(b)
  /\ LET r == Decode(ver, b) IN r.ok /\ Same(r.v, p) /\ r.d \subseteq ValueDevs

-----------------------------------------------------------------------------
(* Reading.  Record: [k |-> "dec", ver, s, max, out, left, tail, alone,    *)
(* dir]: read was called on a buffer holding s and left `left` bytes in    *)
(* it, which were the last ones of s iff tail; alone is the outcome for    *)
(* the frame without what follows it, dir that of the packet's own parser  *)
(* (when it differs from out; otherwise they are absent).                  *)

Frm(rec) == LET v == Verdict(rec.s, rec.max) IN
            IF v.total = Len(rec.s) THEN rec.s ELSE Prefix(rec.s, v.total)

Removes(rec, n) == rec.left = Len(rec.s) - n /\ rec.tail

C02dec(rec) ==
  LET v == Verdict(rec.s, rec.max) IN
  Crashed(rec.out) \/ Removes(rec, IF v.v = "frame" THEN v.total ELSE 0)

AskRight(v, out) ==
  IF v.v = "more" THEN Asks(out) /\ out.n >= v.lo /\ out.n <= v.hi
  ELSE ~Asks(out)

C03dec(rec) == Crashed(rec.out) \/ AskRight(Verdict(rec.s, rec.max), rec.out)

LimitRight(v, out) ==
  IF v.v = "toolarge"
  THEN IsErr(out) /\ out.e = "PayloadSizeLimitExceeded" /\ out.n = v.n
  ELSE ~(IsErr(out) /\ out.e = "PayloadSizeLimitExceeded")

C04dec(rec) == Crashed(rec.out) \/ LimitRight(Verdict(rec.s, rec.max), rec.out)

C06dec(rec) ==
  /\ ~Crashed(rec.out)
  /\ "dir" \in DOMAIN rec => ~Crashed(rec.dir)
  /\ (Verdict(rec.s, rec.max).v = "frame" /\ "alone" \in DOMAIN rec) =>
        SameOut(rec.alone, rec.out)

\* C11, C12: a frame the standard allows is accepted with its meaning.
ReadsRight(rec) ==
  Verdict(rec.s, rec.max).v = "frame" =>
    LET r == Decode(rec.ver, Frm(rec)) IN (r.ok /\ r.d = {}) => Gives(rec.out, r.v)

\* C13, C14: a frame the standard forbids is not.
RejectsRight(rec) ==
  Verdict(rec.s, rec.max).v = "frame" =>
    LET r == Decode(rec.ver, Frm(rec)) IN (~r.ok /\ r.d = {}) => IsErr(rec.out)

\* Both, which is what C15 and C19 ask on the frames chosen for them.
Agrees(rec) ==
  Verdict(rec.s, rec.max).v = "frame" =>
    LET r == Decode(rec.ver, Frm(rec)) IN
    r.d = {} => IF r.ok THEN Gives(rec.out, r.v) ELSE IsErr(rec.out)

-----------------------------------------------------------------------------
(* C25: base is well-formed, s differs from it by one defect, and the      *)
(* outcome must name it.                                                   *)

Names(e) ==
  CASE e[1] \in {"InvalidPacketType", "InvalidQoS", "InvalidProtocolLevel",
                 "InvalidRetainForwardRule", "InvalidPropertyType"} -> {<<e[1], e[2]>>}
    [] e[1] = "PropertyNotAllowed" -> {<<"InvalidPropertyType", e[2]>>}
    [] e[1] = "Code" -> {<<"InvalidConnectReturnCode", e[2]>>,
                         <<"InvalidSubscribeReasonCode", e[2]>>, <<"InvalidReason", e[2]>>}
    [] e[1] = "PacketIdZero"    -> {<<"PacketIdZero", 0>>}
    [] e[1] = "Utf8"            -> {<<"TopicNotUtf8", 0>>}
    [] e[1] = "InvalidProtocol" -> {<<"InvalidProtocol", 0>>}
    [] OTHER -> {}

Differences(a, b) == {k \in DOMAIN a : a[k] # b[k]}

\* A connect with another protocol name, also one of another length.
Renamed(rec) ==
  LET v == Verdict(rec.s, rec.max) w == Verdict(rec.base, rec.max) IN
  v.v = "frame" /\ w.v = "frame" /\
  LET h == v.total - Declared(rec.s) g == w.total - Declared(rec.base)
      n == rec.s[h + 1] * 256 + rec.s[h + 2]
  IN  /\ rec.s[1] = rec.base[1] /\ v.total = Len(rec.s) /\ h + 2 + n < Len(rec.s)
      /\ SubSeq(rec.s, h + 3 + n, Len(rec.s)) = SubSeq(rec.base, g + 7, Len(rec.base))

OneDefect(rec) ==
  LET b == Decode(rec.ver, rec.base) IN
  /\ b.ok /\ b.d = {}
  /\ \/ (Len(rec.base) = Len(rec.s) /\ Cardinality(Differences(rec.base, rec.s)) <= 4)
     \/ rec.what = "header"
     \/ rec.what = "name" /\ Renamed(rec)

C25dec(rec) ==
  LET v == Verdict(rec.s, rec.max) IN
  OneDefect(rec) =>
    CASE v.v = "badlen" -> IsErr(rec.out) /\ rec.out.e = "MalformedRemainingLength"
      [] v.v = "toolarge" -> IsErr(rec.out) /\ rec.out.e = "PayloadSizeLimitExceeded"
                             /\ rec.out.n = v.n
      [] v.v = "more" -> TRUE
      [] v.v = "frame" ->
           LET r == Decode(rec.ver, Frm(rec)) IN
           (~r.ok /\ r.d = {} /\ Names(r.e) # {}) =>
              IsErr(rec.out) /\ <<rec.out.e, rec.out.n>> \in Names(r.e)

\* Did the frame have a nameable defect? (counted, so that a run that never
\* exercised the property shows)
C25live(rec) ==
  OneDefect(rec) /\ LET v == Verdict(rec.s, rec.max) IN
    \/ v.v \in {"badlen", "toolarge"}
    \/ (v.v = "frame"
        /\ LET r == Decode(rec.ver, Frm(rec)) IN ~r.ok /\ r.d = {} /\ Names(r.e) # {})

-----------------------------------------------------------------------------
(* Header check alone.  [k |-> "hdr", s, max, out]: check was called on s; *)
(* on success out.n is the length of the frame.                            *)

C03hdr(rec) == Crashed(rec.out) \/ AskRight(Verdict(rec.s, rec.max), rec.out)
C04hdr(rec) == Crashed(rec.out) \/ LimitRight(Verdict(rec.s, rec.max), rec.out)
C05hdr(rec) ==
  LET v == Verdict(rec.s, rec.max) IN
  CASE v.v = "frame"    -> rec.out.r = "ok" /\ rec.out.n = v.total
    [] v.v = "badlen"   -> IsErr(rec.out) /\ rec.out.e = "MalformedRemainingLength"
    [] v.v = "toolarge" -> IsErr(rec.out) /\ rec.out.n = v.n
    [] v.v = "more"     -> Asks(rec.out) /\ rec.out.n >= v.lo /\ rec.out.n <= v.hi

(* Frames of every declared length n of which only the header and `have`   *)
(* bytes are there.  [k |-> "asks", ver, b1, have, lim, width, from, to,    *)
(* count, runs, crashed]: `count` lengths between from and to were tried,   *)
(* the length field taking `width` bytes (0: as few as it can), the limit   *)
(* being absent, n, or n - 1.  runs: <<n, c, a, m>> for c lengths from n    *)
(* on: a = 0: m bytes were asked for (one more with each), 1: the frame was *)
(* refused for its length m (likewise), 2: something else came of it and    *)
(* the frame was removed; 8: anything else.                                 *)

Asked(rec, n) ==
  LET w == IF rec.width = 0 THEN VarIntLen(n) ELSE rec.width
      v == Decide(1 + w + rec.have, [st |-> "ok", n |-> n, len |-> w],
                  IF rec.lim = "none" THEN MaxVarInt ELSE IF rec.lim = "equal" THEN n ELSE n - 1)
  IN CASE v.v = "more" -> <<0, v.lo>> [] v.v = "toolarge" -> <<1, v.n>> [] v.v = "frame" -> <<2, 0>>
\* What is expected is piecewise linear, so that the ends of a run decide.
AsksRight(rec, kinds) ==
  /\ ~rec.crashed
  /\ FoldLeft(LAMBDA a, x : a + x[2], 0, rec.runs) = rec.count
  /\ rec.runs[1][1] = rec.from
  /\ LET z == rec.runs[Len(rec.runs)] IN z[1] + z[2] - 1 = rec.to
  /\ \A j \in DOMAIN rec.runs : LET x == rec.runs[j] k == x[2] - 1
                                    a == Asked(rec, x[1]) b == Asked(rec, x[1] + k) IN
       ({x[3], a[1], b[1]} \cap kinds # {}) =>
         /\ x[3] = a[1] /\ x[4] = a[2]
         /\ x[3] = b[1] /\ (IF x[3] = 2 THEN x[4] ELSE x[4] + k) = b[2]

(* Frames that arrive byte by byte, and are read after each.  [k |->        *)
(* "grow", ver, b1, count, runs, whole, crashed]: runs: <<n, h, c, a, m>>:  *)
(* of the frame with a body of n bytes the first h, h + 1, ..., h + c - 1   *)
(* were there; a = 0: m bytes were asked for, one less with each, and the   *)
(* buffer stayed as it was; 8: anything else.  count: such calls in all;    *)
(* whole: <<n, c, ok>> for c lengths from n on, when the last byte came the *)
(* frame gave what it gives when read at once, and nothing else was taken.  *)

GrowRight(rec) ==
  /\ ~rec.crashed
  /\ FoldLeft(LAMBDA a, x : a + x[3], 0, rec.runs) = rec.count
  /\ \A j \in DOMAIN rec.runs :
       LET x == rec.runs[j] n == x[1] w == VarIntLen(n)
           \* h bytes: of the length field, h - 1
           Want(h) == Decide(h, IF h > w THEN [st |-> "ok", n |-> n, len |-> w]
                                ELSE [st |-> "short", n |-> IF h < 2 THEN 0 ELSE n % (128 ^ (h - 1)), len |-> 0], MaxVarInt) IN
       /\ x[4] = 0
       \* linear once the length is there
       /\ \A h \in {x[2] + x[3] - 1} \cup {h \in 0..6 : h >= x[2] /\ h < x[2] + x[3]} :
              LET v == Want(h) m == x[5] - (h - x[2]) IN v.v = "more" /\ m >= v.lo /\ m <= v.hi
WholeRight(rec) == ~rec.crashed /\ rec.whole # <<>> /\ \A j \in DOMAIN rec.whole : rec.whole[j][3]

-----------------------------------------------------------------------------
(* Writing.  [k |-> "enc", ver, p, pre, ret, buf, fret, fresh, own, back,  *)
(* bleft]: p was written behind the bytes pre (outcome ret, buffer buf),   *)
(* and into an empty buffer (fret, fresh); own is the length the packet    *)
(* reports for itself or -1; reading fresh gave back and left bleft bytes. *)

RoundTrips(rec) ==
  WellFormed(rec.ver, rec.p) =>
    rec.fret.r = "ok" /\ Gives(rec.back, rec.p) /\ rec.bleft = 0

WritesRight(rec) ==
  (WellFormed(rec.ver, rec.p) /\ rec.fret.r = "ok") => IsForm(rec.ver, rec.p, rec.fresh)

C16enc(rec) ==
  CASE rec.fret.r = "ok"  -> rec.ret.r = "ok" /\ rec.buf = rec.pre \o rec.fresh
    [] rec.fret.r = "err" -> IsErr(rec.ret) /\ rec.ret.e = rec.fret.e
                             /\ Len(rec.buf) >= Len(rec.pre)
                             /\ Prefix(rec.buf, Len(rec.pre)) = rec.pre
    [] OTHER -> TRUE

\* What a buffer announces about itself: header size plus declared length.
Announced(b) == LET n == VarIntAt(b, 2, Len(b)) IN
                IF n.st = "ok" THEN 1 + n.len + n.n ELSE -1

C17enc(rec) ==
  /\ rec.fret.r = "ok" => /\ rec.fret.n = Len(rec.fresh)
                          /\ Announced(rec.fresh) = Len(rec.fresh)
                          /\ rec.own # -1 => rec.own = VarIntAt(rec.fresh, 2, Len(rec.fresh)).n
  /\ (rec.fret.r = "ok" /\ rec.ret.r = "ok") => rec.ret.n = Len(rec.buf) - Len(rec.pre)

C18enc(rec) ==
  /\ Unsendable(rec.p) => IsErr(rec.ret) /\ IsErr(rec.fret)
  /\ IsErr(rec.ret) => rec.buf = rec.pre
  /\ IsErr(rec.fret) => rec.fresh = <<>>

\* C19 on the frames and packets chosen for it (one code in each).
C19enc(rec) == WritesRight(rec) /\ (WellFormed(rec.ver, rec.p) => rec.fret.r = "ok")

(* The functions that map a number.  [k |-> "api", what, outs]: what the   *)
(* function made of each byte 0..255.                                      *)
ApiTable(what) ==
  CASE what = "qos"  -> 0 :> "AtMostOnce" @@ 1 :> "AtLeastOnce" @@ 2 :> "ExactlyOnce"
    [] what = "type" -> [b \in {x \in 0..255 : x \div 16 \in DOMAIN TypeName} |-> TypeName[b \div 16]]
    [] OTHER -> CodesOf[what]
C19api(rec) ==
  LET tab == ApiTable(rec.what) IN
  /\ Len(rec.outs) = 256
  /\ \A b \in 0..255 : LET x == rec.outs[b + 1] IN
       IF b \in DOMAIN tab THEN x.r = "is" /\ x.b = tab[b] ELSE x.r = "err"

-----------------------------------------------------------------------------
(* Rewriting.  [k |-> "re", ver, s, p, w, b1, back, bleft, b2]: reading s  *)
(* gave p; writing p gave w and the bytes b1; reading b1 gave back and     *)
(* left bleft bytes; writing that once more gave b2.                       *)

C20re(rec) == /\ rec.w.r = "ok" /\ Gives(rec.back, rec.p) /\ rec.bleft = 0
              /\ rec.b2 = rec.b1

-----------------------------------------------------------------------------
(* Huge packets, as projections.  [k |-> "big", ver, what, dec, ret, head, *)
(* size, own, back, left, tail]: a packet whose body has dec bytes (dec    *)
(* exceeds MaxVarInt for packets that cannot be sent) was written behind   *)
(* pre bytes; size is by how much the buffer grew, head the first bytes    *)
(* that were appended, kept says whether the bytes before it are as they   *)
(* were.  Then `behind` more bytes were put behind it and it was read:     *)
(* back says whether that gave an equal packet, left how many bytes were   *)
(* left and tail whether they were the last ones.                          *)

BigOk(rec) ==
  IF rec.dec <= MaxVarInt
  THEN /\ rec.ret.r = "ok"
       /\ Prefix(rec.head, 1 + VarIntLen(rec.dec)) = <<rec.head[1]>> \o PutVarInt(rec.dec)
       /\ rec.size = 1 + VarIntLen(rec.dec) + rec.dec
  ELSE IsErr(rec.ret)

C05big(rec) == ~Crashed(rec.ret) /\ BigOk(rec)
C17big(rec) == rec.ret.r = "ok" => /\ rec.ret.n = rec.size
                                   /\ rec.own # -1 => rec.own = rec.dec
                                   /\ Announced(rec.head) = rec.size
C18big(rec) == rec.dec > MaxVarInt => IsErr(rec.ret) /\ rec.size = 0 /\ rec.kept
RoundTripsBig(rec) == (rec.dec <= MaxVarInt) => rec.ret.r = "ok" /\ rec.back /\ rec.left = rec.behind
C02big(rec) == rec.ret.r = "ok" => rec.left = rec.behind /\ rec.tail
C16big(rec) == rec.kept

-----------------------------------------------------------------------------
(* A long property section, as a projection.  [k |-> "wide", ver, what,    *)
(* dec, plen, at, ret, head, size, own, back, left, behind, theirs]: the   *)
(* properties of the place `what` take plen bytes, their length begins     *)
(* `at` bytes into the body, which has dec bytes.  The packet was written  *)
(* (ret, head, size) and read back from in front of other bytes (back,     *)
(* left); theirs says whether a peer's frame of it reads as the packet.    *)

\* What lies between the property section and the beginning of the body.
SectionAt(what) ==
  CASE what = "Connect" -> 10 [] what = "ConnAck" -> 2
    [] what = "Will" -> 10 + 1 + 4                \* client identifier "cl"
    [] what = "Publish" -> 2 + 2 + 2              \* topic "tt", identifier
    [] what \in {"PubAck", "PubRec", "PubRel", "PubComp"} -> 3
    [] what = "Disconnect" -> 1
    [] OTHER -> 2

WideWritten(rec) ==
  LET pl == PutVarInt(rec.plen)
      h  == 1 + VarIntLen(rec.dec) + SectionAt(rec.what)
  IN /\ rec.at = SectionAt(rec.what)
     /\ rec.ret.r = "ok"
     /\ rec.size = 1 + VarIntLen(rec.dec) + rec.dec
     /\ Prefix(rec.head, 1 + VarIntLen(rec.dec)) = <<rec.head[1]>> \o PutVarInt(rec.dec)
     /\ SubSeq(rec.head, h + 1, h + Len(pl)) = pl
WideBack(rec)  == rec.ret.r = "ok" /\ rec.back /\ rec.left = rec.behind
WideRead(rec)  == rec.theirs.r = "is" /\ rec.theirs.b
C17wide(rec) == rec.ret.r = "ok" => /\ rec.ret.n = rec.size
                                    /\ rec.own # -1 => rec.own = rec.dec
                                    /\ Announced(rec.head) = rec.size

-----------------------------------------------------------------------------
(* A packet written behind pre bytes, as a projection.  [k |-> "after",    *)
(* ver, p, pre, ret, fret, size, fsize, kept, same]: kept says whether     *)
(* those bytes are as they were, same whether what was appended is what    *)
(* writing into an empty buffer gave.                                      *)

C16after(rec) ==
  CASE rec.fret.r = "ok"  -> rec.ret.r = "ok" /\ rec.kept /\ rec.same
    [] rec.fret.r = "err" -> IsErr(rec.ret) /\ rec.ret.e = rec.fret.e /\ rec.kept
    [] OTHER -> TRUE
C17after(rec) == /\ rec.ret.r = "ok" => rec.ret.n = rec.size
                 /\ rec.fret.r = "ok" => rec.fret.n = rec.fsize
C18after(rec) == /\ Unsendable(rec.p) => IsErr(rec.ret)
                 /\ IsErr(rec.ret) => rec.kept /\ rec.size = 0

-----------------------------------------------------------------------------
(* A write that is refused, between two writes of p into the same buffer.  *)
(* [k |-> "refusal", ver, what, p, w1, b1, bad, kept, w2, b2, first]: bad  *)
(* is the outcome for a packet that cannot be sent, kept whether it left   *)
(* the buffer as it was; w1, w2 and b1, b2 what writing p gave and         *)
(* appended before and after; first: in the end the bytes from before the  *)
(* refusal are as they were.                                               *)

C18refusal(rec) ==
  /\ IsErr(rec.bad) /\ rec.kept /\ rec.first
  /\ SameOut(rec.w1, rec.w2) /\ rec.b1 = rec.b2

-----------------------------------------------------------------------------
(* One string or binary field of n bytes, as a projection.  [k |-> "long", *)
(* ver, what, n, ret, fret, size, fsize, kept, back, left, theirs]: as for *)
(* "enc"; size and fsize are the bytes appended; theirs says whether a     *)
(* peer's frame of the packet reads as the packet (for n <= 65535).        *)

C18long(rec) ==
  /\ rec.n > 65535 => IsErr(rec.ret) /\ IsErr(rec.fret)
  /\ IsErr(rec.ret) => rec.size = 0 /\ rec.kept
  /\ IsErr(rec.fret) => rec.fsize = 0
RoundTripsLong(rec) == rec.n <= 65535 => rec.fret.r = "ok" /\ rec.back /\ rec.left = 0
ReadsLong(rec) == rec.n <= 65535 => rec.theirs.r = "is" /\ rec.theirs.b
C17long(rec) == /\ rec.ret.r = "ok" => rec.ret.n = rec.size
                /\ rec.fret.r = "ok" => rec.fret.n = rec.fsize
C16long(rec) == rec.kept /\ rec.size = rec.fsize

-----------------------------------------------------------------------------
(* Families of packets with one parameter n.  [k |-> "lens", ver, what,    *)
(* p1, p2, from, to, count, runs, nback, ntheirs, crashed]: p1 and p2 are  *)
(* the members for 1 and 2; `count` members between from and to were       *)
(* written.  runs: <<n, c, grown, ret, own, announced>> for the c members  *)
(* from n on; these numbers are for the first of them and grow with each   *)
(* as the packets do (-1: refused, or not reported).  nback and ntheirs:   *)
(* the members that were not read back, or not read from a peer's frame.   *)

SectionSize(list) == LET b == PutProps(list) IN VarIntAt(b, 1, Len(b)).n
\* The property section that makes the difference, if one does.
Varied(rec) == LET p == rec.p1 q == rec.p2 IN
  CASE p.props # q.props -> <<SectionSize(p.props)>>
    [] p.t = "Connect" /\ p.will # <<>> /\ p.will[1].props # q.will[1].props
         -> <<SectionSize(p.will[1].props)>>
    [] OTHER -> <<>>

\* The size of a body that has b bytes for n = 1 and u more for each step; of
\* these bytes the ones in `sec` lie in a property section.
BodySize(b, u, sec, n) ==
  b + u * (n - 1)
  + (IF sec = <<>> THEN 0 ELSE VarIntLen(sec[1] + u * (n - 1)) - VarIntLen(sec[1]))
FrameSize(body) == 1 + VarIntLen(body) + body

\* Every member in sight is in one of the runs, with the numbers F gives for it.
RunsAre(rec, u, F(_)) ==
  /\ FoldLeft(LAMBDA a, x : a + x[2], 0, rec.runs) = rec.count
  /\ rec.runs[1][1] = rec.from
  /\ LET z == rec.runs[Len(rec.runs)] IN z[1] + z[2] - 1 = rec.to
  /\ \A j \in DOMAIN rec.runs : LET x == rec.runs[j] IN
       /\ x[3] = x[4] /\ x[3] = x[6]
       /\ \A k \in 0..(x[2] - 1) : LET e == F(x[1] + k) IN
            e[1] = x[3] + k * u /\ (x[5] # -1 => e[2] = x[5] + k * u)

LensSizes(rec) ==
  LET b == Len(EncBody(rec.ver, rec.p1))
      u == Len(EncBody(rec.ver, rec.p2)) - b
      sec == Varied(rec)
      F(n) == LET body == BodySize(b, u, sec, n) IN <<FrameSize(body), body>>
  IN  ~rec.crashed /\ WellFormed(rec.ver, rec.p1) /\ RunsAre(rec, u, F)
LensBack(rec) == ~rec.crashed /\ rec.nback = <<>>
LensRead(rec) == ~rec.crashed /\ rec.ntheirs = <<>>
C17lens(rec)  == ~rec.crashed /\ \A j \in DOMAIN rec.runs : LET x == rec.runs[j] IN
                   x[4] >= 0 => /\ x[3] = x[4] /\ x[3] = x[6]
                                /\ x[5] # -1 => FrameSize(x[5]) = x[3]

(* A number of two bytes, or half of one of four, with every value.        *)
(* [k |-> "vals", ver, what, p0, p1, from, to, at, first, sizes, rest,     *)
(* back, theirs, crashed]: p0 and p1 are the packets with the first and    *)
(* last value.  first is what was written for p0; rest are the values for  *)
(* which the same was written but for the value, in the two bytes after    *)
(* the first `at`; back and theirs those that were read back, and that     *)
(* were read from a peer's frame; sizes as above.  All as runs.            *)

AllOf(rec, l) == l = <<<<rec.from, rec.to - rec.from + 1>>>>
Patched(f, at, v) == [f EXCEPT ![at + 1] = v \div 256, ![at + 2] = v % 256]
ValsWritten(rec) ==
  /\ ~rec.crashed /\ WellFormed(rec.ver, rec.p0) /\ WellFormed(rec.ver, rec.p1)
  /\ Len(rec.first) >= rec.at + 2
  /\ IsForm(rec.ver, rec.p0, rec.first)
  /\ IsForm(rec.ver, rec.p1, Patched(rec.first, rec.at, rec.to))
  /\ AllOf(rec, rec.rest)
ValsBack(rec) == ~rec.crashed /\ AllOf(rec, rec.back)
ValsRead(rec) == ~rec.crashed /\ AllOf(rec, rec.theirs)
C17vals(rec)  == ~rec.crashed /\ \A j \in DOMAIN rec.sizes : LET x == rec.sizes[j] IN
                   x[4] >= 0 => /\ x[3] = x[4] /\ x[3] = x[6]
                                /\ x[5] # -1 => FrameSize(x[5]) = x[3]

(* Every character in a text field.  [k |-> "chars", ver, what, ps, ws, fs, *)
(* wrote1, back1, theirs1, wrote64, back64, theirs64, crashed]: ps are five *)
(* packets with one text in the field, ws what the library wrote for each,  *)
(* fs a peer's frames.  wrote1: the characters that, alone in the field,    *)
(* are written as those are, the text apart; back1: read back; theirs1:     *)
(* read from such a frame of a peer.  The others: 64 characters in a row.   *)
(* All as <<first, how many, 0>>; surrogates are no characters, NUL and the *)
(* wildcards are not asked for.                                             *)

Alone    == <<<<1, 34, 0>>, <<36, 7, 0>>, <<44, 12244, 0>>, <<57344, 8192, 0>>>>
Together == <<<<12288, 43008, 0>>, <<65536, 1048576, 0>>>>
CharsWritten(rec) ==
  /\ ~rec.crashed /\ Len(rec.ws) = 5
  /\ \A k \in 1..5 : WellFormed(rec.ver, rec.ps[k]) /\ IsForm(rec.ver, rec.ps[k], rec.ws[k])
  /\ rec.wrote1 = Alone /\ rec.wrote64 = Together
CharsBack(rec) == ~rec.crashed /\ rec.back1 = Alone /\ rec.back64 = Together
CharsRead(rec) ==
  /\ ~rec.crashed /\ Len(rec.fs) = 5
  /\ \A k \in 1..5 : IsForm(rec.ver, rec.ps[k], rec.fs[k])
  /\ rec.theirs1 = Alone /\ rec.theirs64 = Together

-----------------------------------------------------------------------------
(* Topics.  [k |-> "tv", ss, hw, vt, vf]: the three predicates on every    *)
(* text of ss (0, 1, or 2 for a crash).  [k |-> "tm", ts, fs, m]: matches  *)
(* for every topic of ts (rows) and filter of fs (columns).                *)

Bool(x) == IF x THEN 1 ELSE 0

C23tv(rec) == \A k \in DOMAIN rec.ss :
  /\ rec.hw[k] = Bool(T!HasWildcards(rec.ss[k]))
  /\ rec.vt[k] = Bool(T!ValidTopic(rec.ss[k]))
  /\ rec.vf[k] = Bool(T!ValidFilter(rec.ss[k]))

(* Every character in a text.  [k |-> "uni", what, t, f, runs]: t = <<a, b>> *)
(* stands for the texts a \o c \o b with c any character; what = "v": the   *)
(* three predicates on it (1, 2, 4 added up), "m": matches with the filter   *)
(* f, one text or a family of the same c.  runs: <<first, how many, value>>. *)
(* But for those that occur in the texts and the four that mean something,   *)
(* all characters are alike: as "z".                                         *)

Like == 122
UniAt(rec, c) ==
  LET t == rec.t[1] \o <<c>> \o rec.t[2] IN
  IF rec.what = "v"
  THEN Bool(T!HasWildcards(t)) + 2 * Bool(T!ValidTopic(t)) + 4 * Bool(T!ValidFilter(t))
  ELSE LET f == IF Len(rec.f) = 1 THEN rec.f[1] ELSE rec.f[1] \o <<c>> \o rec.f[2] IN
       IF T!ValidTopic(t) /\ T!ValidFilter(f) THEN Bool(T!Matches(t, f)) ELSE -1
UniRight(rec) ==
  LET own == {T!SLASH, T!PLUS, T!HASH, T!DOLLAR} \cup
             UNION {Range(rec.t[k]) : k \in DOMAIN rec.t} \cup UNION {Range(rec.f[k]) : k \in DOMAIN rec.f}
      z   == UniAt(rec, Like)
      Fits(v, e) == IF e = -1 THEN v \in {0, 1} ELSE v = e
      end == rec.runs[Len(rec.runs)]
      Next(c) == IF c = 55296 THEN 57344 ELSE c  \* past the surrogates
  IN  /\ Like \notin own
      /\ rec.runs # <<>> /\ rec.runs[1][1] = 1 /\ end[1] + end[2] = 1114112
      /\ \A j \in DOMAIN rec.runs : LET x == rec.runs[j] IN
           /\ j > 1 => x[1] = Next(rec.runs[j - 1][1] + rec.runs[j - 1][2])
           /\ \A c \in own : (c >= x[1] /\ c < x[1] + x[2]) => Fits(x[3], UniAt(rec, c))
           /\ \/ Fits(x[3], z)
              \/ \A c \in x[1]..(x[1] + x[2] - 1) : c \in own

\* For what is not a topic matched with a valid filter only totality is asked.
C22tm(rec) ==
  LET LT == [a \in DOMAIN rec.ts |-> T!Levels(rec.ts[a])]
      LF == [b \in DOMAIN rec.fs |-> T!Levels(rec.fs[b])]
      VT == [a \in DOMAIN rec.ts |-> T!ValidTopic(rec.ts[a])]
      VF == [b \in DOMAIN rec.fs |-> T!ValidFilter(rec.fs[b])]
  IN \A a \in DOMAIN rec.ts : \A b \in DOMAIN rec.fs :
       LET x == rec.m[a][b] IN
       IF VT[a] /\ VF[b]
       THEN x = Bool(~T!Reserved(rec.ts[a]) /\ T!MatchLevels(LT[a], LF[b]))
       ELSE IF T!Reserved(rec.ts[a]) /\ VF[b] THEN x = 0
       ELSE x # 2

(* C24 on the library's own answers: fs are filters, ts topics; f[a][b] is *)
(* matches(fs[a], fs[b]) ("b covers a"), m[a][b] is matches(ts[a], fs[b]). *)
C24tm(rec) ==
  LET V == {b \in DOMAIN rec.fs : T!ValidFilter(rec.fs[b])}
      L == [b \in DOMAIN rec.fs |-> T!Levels(rec.fs[b])]
      Multi(b) == L[b][Len(L[b])] = <<T!HASH>>
      Tops(b) == {a \in DOMAIN rec.ts : rec.m[a][b] = 1}
      TS == [b \in V |-> Tops(b)]
      Cov == [b \in V |-> {a \in V : rec.f[a][b] = 1}]   \* what b covers
  IN /\ \A b \in V : \A a \in Cov[b] :
          /\ TS[a] \subseteq TS[b]                       \* sound
          /\ Cov[a] \subseteq Cov[b]                     \* transitive
          /\ Multi(a) => Multi(b)
     /\ \A b \in V : ~T!Reserved(rec.fs[b]) => b \in Cov[b]
     \* sound also beyond the topics at hand
     /\ \A b \in V : \A a \in Cov[b] : T!CoversSem(rec.fs[b], rec.fs[a])

-----------------------------------------------------------------------------
(* Something behind the last field.  [k |-> "pads", ver, what, s, fill,    *)
(* from, to, count, behind, runs]: the frame s, made longer by n bytes      *)
(* fill, was read with `behind` bytes behind it; runs: <<n, how many,       *)
(* bytes left, outcome>>.                                                   *)
PadsSeen(rec) == FoldLeft(LAMBDA a, x : a + x[2], 0, rec.runs) = rec.count
PadsRemoved(rec) == PadsSeen(rec) /\ \A j \in DOMAIN rec.runs :
  rec.runs[j][4] = "panic" \/ rec.runs[j][3] = rec.behind
PadsAnswered(rec) == PadsSeen(rec) /\ \A j \in DOMAIN rec.runs : rec.runs[j][4] # "more"
PadsSurvived(rec) == PadsSeen(rec) /\ \A j \in DOMAIN rec.runs : rec.runs[j][4] # "panic"

(* C26.  [k |-> "pure", outs]: the distinct outcomes one call had in all   *)
(* the circumstances it was made in.  [k |-> "quiet", bytes]: how many     *)
(* bytes the library printed.                                              *)
C26pure(rec)  == Len(rec.outs) = 1 /\ ~Crashed(rec.outs[1])
C26quiet(rec) == rec.bytes = 0
=============================================================================
