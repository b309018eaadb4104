-------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The meaning of MQTT 3.1.1 (ver = 4) and MQTT 5 (ver = 5) control        *)
(* packets: Decode gives every byte string that forms one frame a meaning  *)
(* (a packet, or a defect), Encode gives every packet its bytes.           *)
(*                                                                         *)
(* Packets are records with a field t (the type) and the fields of that    *)
(* type.  Optional parts are sequences of length 0 or 1, text and data are *)
(* byte strings, properties are a sequence of <<name, value>> in canonical *)
(* order (ascending identifier, repetitions in order of occurrence); the   *)
(* value is a sequence of numbers: the bytes of a number, <<n>> for a      *)
(* variable byte integer, the text, or for a user property the length of   *)
(* the key in two bytes, the key, the value.                               *)
(*                                                                         *)
(* Deviations (field d of a result) are things the standard forbids but    *)
(* that the properties do not require a reader to reject; on a frame with  *)
(* a deviation a reader may return the packet or an error.                 *)
(***************************************************************************)
EXTENDS Octets, Tables, SequencesExt
T == INSTANCE Topic

Then(r, F(_)) == IF ~r.ok THEN r
                 ELSE LET q == F(r) IN [q EXCEPT !.d = @ \cup r.d]

Tag(cond, name) == IF cond THEN {name} ELSE {}

\* Deviations that lie in the values, not in the way they are written down.
ValueDevs == {"nul", "topic", "filter", "pkid0", "dupq0", "emptylist",
              "pwnouser", "propvalue", "level"}

TopicDev(t)  == Tag(t = <<>> \/ T!HasWildcards(t), "topic")
FilterDev(f) == Tag(f = <<>> \/ (T!HasWildcards(f) /\ ~T!ValidFilter(f)), "filter")

-----------------------------------------------------------------------------
(*                               Properties                                *)

PropValueDev(name, x) ==
  CASE name \in {"PayloadFormatIndicator", "RequestProblemInformation",
                 "RequestResponseInformation", "MaximumQos", "RetainAvailable",
                 "WildcardSubscriptionAvailable", "SubscriptionIdentifierAvailable",
                 "SharedSubscriptionAvailable"} -> Tag(x[1] > 1, "propvalue")
    [] name \in {"ReceiveMaximum", "TopicAlias"} -> Tag(x = <<0, 0>>, "propvalue")
    [] name = "MaximumPacketSize" -> Tag(x = <<0, 0, 0, 0>>, "propvalue")
    [] name = "SubscriptionIdentifier" -> Tag(x = <<0>>, "propvalue")
    [] name = "ResponseTopic" -> TopicDev(x)
    [] OTHER -> {}

GetPropValue(id, s, i, hi) ==
  LET ty == PropType[id] IN
  CASE ty = "u8"   -> GetRaw(1, s, i, hi)
    [] ty = "u16"  -> GetRaw(2, s, i, hi)
    [] ty = "u32"  -> GetRaw(4, s, i, hi)
    [] ty = "var"  -> Then(GetVarInt(s, i, hi), LAMBDA a : Ok(<<a.v>>, a.i))
    [] ty = "text" -> GetText(s, i, hi)
    [] ty = "data" -> GetData(s, i, hi)
    [] ty = "pair" -> Then(GetText(s, i, hi), LAMBDA k :
                      Then(GetText(s, k.i, hi), LAMBDA x :
                      Ok(PutData(k.v) \o x.v, x.i)))

\* The properties in s[i..fin], in wire order.
RECURSIVE PropLoop(_, _, _, _, _)
PropLoop(where, s, i, fin, acc) ==
  IF i > fin THEN Ok(acc, i)
  ELSE LET id == s[i] IN
       IF id \notin PropIds THEN Bad("InvalidPropertyType", id)
       ELSE IF id \notin Allowed[where] THEN Bad("PropertyNotAllowed", id)
       ELSE Then(GetPropValue(id, s, i + 1, fin), LAMBDA x :
              LET q == PropLoop(where, s, x.i, fin, Append(acc, <<PropName[id], x.v>>))
              IN  [q EXCEPT !.d = @ \cup PropValueDev(PropName[id], x.v)])

\* Canonical order; of a single-valued property that occurs twice (a
\* deviation) the last counts.
CanonProps(where, list) ==
  LET OfId(id) ==
        LET l == SelectSeq(list, LAMBDA x : x[1] = PropName[id])
        IN  IF Repeatable(where, id) \/ Len(l) <= 1 THEN l ELSE <<l[Len(l)]>>
  IN  IF list = <<>> THEN <<>>
      ELSE FlattenSeq([k \in DOMAIN AllowedSeq[where] |-> OfId(AllowedSeq[where][k])])

DupProps(where, list) ==
  \E a, b \in DOMAIN list : a < b /\ list[a][1] = list[b][1]
                            /\ ~Repeatable(where, PropNum[list[a][1]])

AuthDev(list) ==
  Tag((\E k \in DOMAIN list : list[k][1] = "AuthenticationData")
      /\ (\A k \in DOMAIN list : list[k][1] # "AuthenticationMethod"), "propvalue")

\* A property section: its length, then properties that end exactly there.
GetProps(where, s, i, hi) ==
  Then(GetVarInt(s, i, hi), LAMBDA n :
    LET fin == n.i + n.v - 1 IN
    IF n.v > hi - n.i + 1 THEN Bad("Cut", 0)
    ELSE Then(PropLoop(where, s, n.i, fin, <<>>), LAMBDA l :
           OkD(CanonProps(where, l.v), fin + 1,
               Tag(DupProps(where, l.v), "dupprop") \cup AuthDev(l.v))))

PutPropValue(id, x) ==
  LET ty == PropType[id] IN
  CASE ty \in {"u8", "u16", "u32"} -> x
    [] ty = "var"            -> PutVarInt(x[1])
    [] ty \in {"text", "data"} -> PutData(x)
    [] ty = "pair" -> LET n == x[1] * 256 + x[2] IN
                      SubSeq(x, 1, 2 + n) \o PutData(SubSeq(x, 3 + n, Len(x)))

PutProps(list) ==
  LET bytes == FlattenSeq([k \in DOMAIN list |->
                 LET id == PropNum[list[k][1]] IN <<id>> \o PutPropValue(id, list[k][2])])
  IN  PutVarInt(Len(bytes)) \o bytes

-----------------------------------------------------------------------------
(*                           Decoding, per type                            *)
(* Each DecX takes the frame s and the window s[i..hi] of its body.        *)

\* Nothing may be left.
Fin(p, nxt, hi) == OkD(p, nxt, Tag(nxt <= hi, "trail"))

GetCode(ver, t, s, i, hi) ==
  Then(GetU8(s, i, hi), LAMBDA c :
    LET tbl == CodesOf[CodeKey(ver, t)] IN
    IF c.v \in DOMAIN tbl THEN Ok(tbl[c.v], c.i) ELSE Bad("Code", c.v))

GetPkid(s, i, hi) ==
  Then(GetU16(s, i, hi), LAMBDA k : OkD(k.v, k.i, Tag(k.v = 0, "pkid0")))

GetTopic(s, i, hi) ==
  Then(GetText(s, i, hi), LAMBDA t : OkD(t.v, t.i, TopicDev(t.v)))

GetFilter(s, i, hi) ==
  Then(GetText(s, i, hi), LAMBDA f : OkD(f.v, f.i, FilterDev(f.v)))

MQTT == <<77, 81, 84, 84>>
Bit(n, b) == (n \div b) % 2 = 1

GetWill(lvl, fl, s, i, hi) ==
  IF ~Bit(fl, 4)
  THEN IF Bit(fl, 8) \/ Bit(fl, 16) \/ Bit(fl, 32) THEN Bad("WillBits", 0)
       ELSE Ok(<<>>, i)
  ELSE Then(IF lvl = 5 THEN GetProps("Will", s, i, hi) ELSE Ok(<<>>, i), LAMBDA pr :
       Then(GetTopic(s, pr.i, hi), LAMBDA tp :
       Then(GetData(s, tp.i, hi), LAMBDA m :
         LET q == (fl \div 8) % 4 IN
         IF q = 3 THEN Bad("InvalidQoS", 3)
         ELSE Ok(<<[topic |-> tp.v, msg |-> m.v, qos |-> q,
                    retain |-> Bit(fl, 32), props |-> pr.v]>>, m.i))))

\* The API cannot tell an empty user name or password from an absent one:
\* two empty strings are "no login".
GetLogin(lvl, fl, s, i, hi) ==
  Then(IF Bit(fl, 128) THEN GetText(s, i, hi) ELSE Ok(<<>>, i), LAMBDA u :
  Then(IF Bit(fl, 64) THEN GetText(s, u.i, hi) ELSE Ok(<<>>, u.i), LAMBDA w :
    OkD(IF u.v = <<>> /\ w.v = <<>> THEN <<>> ELSE <<[u |-> u.v, p |-> w.v]>>, w.i,
        Tag(lvl = 4 /\ Bit(fl, 64) /\ ~Bit(fl, 128), "pwnouser"))))

DecConnect(ver, s, i, hi) ==
  Then(GetText(s, i, hi), LAMBDA nm :
  Then(GetU8(s, nm.i, hi), LAMBDA lv :
    IF nm.v # MQTT THEN Bad("InvalidProtocol", 0)
    ELSE IF lv.v \notin DOMAIN LevelName THEN Bad("InvalidProtocolLevel", lv.v)
    ELSE
    \* The 3.1.1 reader reads the 3.1.1 layout whatever the level; the
    \* MQTT 5 reader reads the layout of the level.
    LET lay == IF ver = 4 THEN 4 ELSE lv.v IN
    Then(GetU8(s, lv.i, hi), LAMBDA fl :
    Then(GetU16(s, fl.i, hi), LAMBDA ka :
    Then(IF lay = 5 THEN GetProps("Connect", s, ka.i, hi) ELSE Ok(<<>>, ka.i), LAMBDA pr :
    Then(GetText(s, pr.i, hi), LAMBDA id :
    Then(GetWill(lay, fl.v, s, id.i, hi), LAMBDA wl :
    Then(GetLogin(lay, fl.v, s, wl.i, hi), LAMBDA lg :
      LET base == [t |-> "Connect", proto |-> LevelName[lv.v], ka |-> ka.v, id |-> id.v,
                   clean |-> Bit(fl.v, 2), will |-> wl.v, login |-> lg.v, props |-> pr.v]
      IN  Then(Fin(base, lg.i, hi), LAMBDA f :
            OkD(f.v, f.i, Tag(Bit(fl.v, 1), "connflag") \cup Tag(lv.v # ver, "level")))
    ))))))))

DecConnAck(ver, s, i, hi) ==
  Then(GetU8(s, i, hi), LAMBDA fl :
  Then(GetCode(ver, "ConnAck", s, fl.i, hi), LAMBDA c :
  Then(IF ver = 5 THEN GetProps("ConnAck", s, c.i, hi) ELSE Ok(<<>>, c.i), LAMBDA pr :
  Then(Fin([t |-> "ConnAck", sp |-> Bit(fl.v, 1), code |-> c.v, props |-> pr.v], pr.i, hi),
       LAMBDA f : OkD(f.v, f.i, Tag(fl.v > 1, "ackflag"))))))

DecPublish(ver, b1, s, i, hi) ==
  LET q == (b1 \div 2) % 4 IN
  IF q = 3 THEN Bad("InvalidQoS", 3)
  ELSE
  Then(GetText(s, i, hi), LAMBDA tp :
  Then(IF q = 0 THEN Ok(0, tp.i) ELSE GetU16(s, tp.i, hi), LAMBDA pk :
    IF q # 0 /\ pk.v = 0 THEN Bad("PacketIdZero", 0)
    ELSE
    Then(IF ver = 5 THEN GetProps("Publish", s, pk.i, hi) ELSE Ok(<<>>, pk.i), LAMBDA pr :
      OkD([t |-> "Publish", dup |-> Bit(b1, 8), qos |-> q, retain |-> Bit(b1, 1),
           topic |-> tp.v, pkid |-> pk.v, props |-> pr.v,
           payload |-> SubSeq(s, pr.i, hi)], hi + 1,
          (IF T!HasWildcards(tp.v) THEN {"topic"}
           ELSE IF tp.v = <<>> /\ ~(ver = 5 /\ \E k \in DOMAIN pr.v : pr.v[k][1] = "TopicAlias")
                THEN {"topic"} ELSE {})
          \cup Tag(q = 0 /\ Bit(b1, 8), "dupq0")))))

\* PUBACK, PUBREC, PUBREL, PUBCOMP
DecAck(ver, t, s, i, hi) ==
  Then(GetPkid(s, i, hi), LAMBDA pk :
    IF ver = 4
    THEN Fin([t |-> t, pkid |-> pk.v, reason |-> "Success", props |-> <<>>], pk.i, hi)
    ELSE IF pk.i > hi
    THEN Ok([t |-> t, pkid |-> pk.v, reason |-> "Success", props |-> <<>>], pk.i)
    ELSE Then(GetCode(ver, t, s, pk.i, hi), LAMBDA c :
         Then(IF c.i > hi THEN Ok(<<>>, c.i) ELSE GetProps(t, s, c.i, hi), LAMBDA pr :
         Fin([t |-> t, pkid |-> pk.v, reason |-> c.v, props |-> pr.v], pr.i, hi))))

RECURSIVE FilterLoop(_, _, _, _, _)
FilterLoop(ver, s, i, hi, acc) ==
  IF i > hi THEN Ok(acc, i)
  ELSE Then(GetFilter(s, i, hi), LAMBDA f :
       Then(GetU8(s, f.i, hi), LAMBDA o :
         LET q  == o.v % 4
             rh == (o.v \div 16) % 4
             dev == IF ver = 4 THEN Tag(o.v > 3, "subopt") ELSE Tag(o.v > 63, "subopt")
         IN
         IF ver = 5 /\ rh = 3 THEN Bad("InvalidRetainForwardRule", 3)
         ELSE IF q = 3 THEN Bad("InvalidQoS", 3)
         ELSE LET one == [path |-> f.v, qos |-> q,
                          nl  |-> ver = 5 /\ Bit(o.v, 4),
                          rap |-> ver = 5 /\ Bit(o.v, 8),
                          rh  |-> RetainRule[IF ver = 5 THEN rh ELSE 0]]
                  r == FilterLoop(ver, s, o.i, hi, Append(acc, one))
              IN [r EXCEPT !.d = @ \cup dev]))

DecSubscribe(ver, s, i, hi) ==
  Then(GetPkid(s, i, hi), LAMBDA pk :
  Then(IF ver = 5 THEN GetProps("Subscribe", s, pk.i, hi) ELSE Ok(<<>>, pk.i), LAMBDA pr :
  Then(FilterLoop(ver, s, pr.i, hi, <<>>), LAMBDA fs :
    IF ver = 4 /\ fs.v = <<>> THEN Bad("Empty", 0)
    ELSE OkD([t |-> "Subscribe", pkid |-> pk.v, filters |-> fs.v, props |-> pr.v],
             fs.i, Tag(fs.v = <<>>, "emptylist")))))

\* All the bytes to the end of the packet are codes; the first unassigned
\* one is the defect.
GetCodes(ver, t, s, i, hi) ==
  LET tbl == CodesOf[CodeKey(ver, t)]
      bad == {k \in i..hi : s[k] \notin DOMAIN tbl}
  IN  IF bad = {} THEN Ok([k \in 1..(hi - i + 1) |-> tbl[s[i + k - 1]]], hi + 1)
      ELSE Bad("Code", s[CHOOSE k \in bad : \A m \in bad : k <= m])

DecSubAck(ver, t, s, i, hi) ==
  Then(GetPkid(s, i, hi), LAMBDA pk :
  Then(IF ver = 5 THEN GetProps(t, s, pk.i, hi) ELSE Ok(<<>>, pk.i), LAMBDA pr :
    IF pr.i > hi THEN Bad("Empty", 0)
    ELSE Then(GetCodes(ver, t, s, pr.i, hi), LAMBDA cs :
         Ok([t |-> t, pkid |-> pk.v, codes |-> cs.v, props |-> pr.v], cs.i))))

DecUnsubAck4(s, i, hi) ==
  IF hi - i + 1 # 2 THEN Bad("Size", 0)
  ELSE Then(GetPkid(s, i, hi), LAMBDA pk :
         Ok([t |-> "UnsubAck", pkid |-> pk.v, codes |-> <<>>, props |-> <<>>], pk.i))

RECURSIVE TextLoop(_, _, _, _)
TextLoop(s, i, hi, acc) ==
  IF i > hi THEN Ok(acc, i)
  ELSE Then(GetFilter(s, i, hi), LAMBDA f : TextLoop(s, f.i, hi, Append(acc, f.v)))

DecUnsubscribe(ver, s, i, hi) ==
  Then(GetPkid(s, i, hi), LAMBDA pk :
  Then(IF ver = 5 THEN GetProps("Unsubscribe", s, pk.i, hi) ELSE Ok(<<>>, pk.i), LAMBDA pr :
  Then(TextLoop(s, pr.i, hi, <<>>), LAMBDA fs :
    OkD([t |-> "Unsubscribe", pkid |-> pk.v, topics |-> fs.v, props |-> pr.v],
        fs.i, Tag(fs.v = <<>>, "emptylist")))))

DecDisconnect(ver, s, i, hi) ==
  LET normal == [t |-> "Disconnect", reason |-> "NormalDisconnection", props |-> <<>>] IN
  IF ver = 4 THEN Fin(normal, i, hi)
  ELSE IF i > hi THEN Ok(normal, i)
  ELSE Then(GetCode(5, "Disconnect", s, i, hi), LAMBDA c :
       Then(IF c.i > hi THEN Ok(<<>>, c.i) ELSE GetProps("Disconnect", s, c.i, hi), LAMBDA pr :
       Fin([normal EXCEPT !.reason = c.v, !.props = pr.v], pr.i, hi)))

DecBody(ver, t, b1, s, i, hi) ==
  CASE t = "Connect"     -> DecConnect(ver, s, i, hi)
    [] t = "ConnAck"     -> DecConnAck(ver, s, i, hi)
    [] t = "Publish"     -> DecPublish(ver, b1, s, i, hi)
    [] t \in {"PubAck", "PubRec", "PubRel", "PubComp"} -> DecAck(ver, t, s, i, hi)
    [] t = "Subscribe"   -> DecSubscribe(ver, s, i, hi)
    [] t = "SubAck"      -> DecSubAck(ver, t, s, i, hi)
    [] t = "Unsubscribe" -> DecUnsubscribe(ver, s, i, hi)
    [] t = "UnsubAck"    -> IF ver = 4 THEN DecUnsubAck4(s, i, hi)
                            ELSE DecSubAck(5, t, s, i, hi)
    [] t \in {"PingReq", "PingResp"} -> Fin([t |-> t], i, hi)
    [] t = "Disconnect"  -> DecDisconnect(ver, s, i, hi)

MayBeEmpty(ver, t) == t \in {"PingReq", "PingResp", "Disconnect"}

(* The meaning of one complete frame: first byte, length field, and        *)
(* exactly the number of bytes that the length field declares.             *)
Decode(ver, s) ==
  LET n   == VarIntAt(s, 2, Len(s))
      i   == 2 + n.len
      num == s[1] \div 16
      t   == TypeName[num]
      dev == Tag(n.len # VarIntLen(n.n), "nonminimal")
             \cup Tag(t # "Publish" /\ s[1] % 16 # HeaderFlags(t), "flags")
  IN  IF num \notin DOMAIN TypeName THEN Bad("InvalidPacketType", num)
      ELSE IF i > Len(s) /\ ~MayBeEmpty(ver, t) THEN BadD(Bad("Missing", 0), dev)
      ELSE LET r == DecBody(ver, t, s[1], s, i, Len(s)) IN [r EXCEPT !.d = @ \cup dev]

-----------------------------------------------------------------------------
(*                                Encoding                                 *)

Num(b) == IF b THEN 1 ELSE 0

\* props5: how a property section is written when there may be one.
Section(ver, list) == IF ver = 5 THEN PutProps(list) ELSE <<>>

ConnectFlags(p) ==
    2 * Num(p.clean)
  + (IF p.will = <<>> THEN 0
     ELSE 4 + 8 * p.will[1].qos + 32 * Num(p.will[1].retain))
  + (IF p.login = <<>> THEN 0
     ELSE 128 * Num(p.login[1].u # <<>>) + 64 * Num(p.login[1].p # <<>>))

OptText(x) == IF x = <<>> THEN <<>> ELSE PutData(x)

EncBody(ver, p) ==
  CASE p.t = "Connect" ->
         LET lay == IF ver = 4 THEN 4 ELSE LevelNum[p.proto] IN
         PutData(MQTT) \o <<LevelNum[p.proto], ConnectFlags(p)>> \o PutU16(p.ka)
         \o Section(lay, p.props) \o PutData(p.id)
         \o (IF p.will = <<>> THEN <<>>
             ELSE Section(lay, p.will[1].props) \o PutData(p.will[1].topic)
                  \o PutData(p.will[1].msg))
         \o (IF p.login = <<>> THEN <<>> ELSE OptText(p.login[1].u) \o OptText(p.login[1].p))
    [] p.t = "ConnAck" ->
         <<Num(p.sp), NumbersOf[CodeKey(ver, "ConnAck")][p.code]>> \o Section(ver, p.props)
    [] p.t = "Publish" ->
         PutData(p.topic) \o (IF p.qos = 0 THEN <<>> ELSE PutU16(p.pkid))
         \o Section(ver, p.props) \o p.payload
    [] p.t \in {"PubAck", "PubRec", "PubRel", "PubComp"} ->
         PutU16(p.pkid)
         \o (IF ver = 4 \/ (p.reason = "Success" /\ p.props = <<>>) THEN <<>>
             ELSE <<NumbersOf[CodeKey(5, p.t)][p.reason]>>
                  \o (IF p.props = <<>> THEN <<>> ELSE PutProps(p.props)))
    [] p.t = "Subscribe" ->
         PutU16(p.pkid) \o Section(ver, p.props)
         \o FlattenSeq([k \in DOMAIN p.filters |-> LET f == p.filters[k] IN
              PutData(f.path) \o <<f.qos + (IF ver = 4 THEN 0
                 ELSE 4 * Num(f.nl) + 8 * Num(f.rap) + 16 * RetainNum[f.rh])>>])
    [] p.t \in {"SubAck", "UnsubAck"} ->
         PutU16(p.pkid) \o Section(ver, p.props)
         \o (IF ver = 4 /\ p.t = "UnsubAck" THEN <<>>
             ELSE [k \in DOMAIN p.codes |-> NumbersOf[CodeKey(ver, p.t)][p.codes[k]]])
    [] p.t = "Unsubscribe" ->
         PutU16(p.pkid) \o Section(ver, p.props)
         \o FlattenSeq([k \in DOMAIN p.topics |-> PutData(p.topics[k])])
    [] p.t \in {"PingReq", "PingResp"} -> <<>>
    [] p.t = "Disconnect" ->
         IF ver = 4 \/ (p.reason = "NormalDisconnection" /\ p.props = <<>>) THEN <<>>
         ELSE <<NumbersOf["v5Disconnect"][p.reason]>>
              \o (IF p.props = <<>> THEN <<>> ELSE PutProps(p.props))

FirstByte(p) ==
  16 * TypeNum[p.t]
  + (IF p.t = "Publish" THEN 8 * Num(p.dup) + 2 * p.qos + Num(p.retain)
     ELSE HeaderFlags(p.t))

Frame(b1, body) == <<b1>> \o PutVarInt(Len(body)) \o body
Encode(ver, p)  == Frame(FirstByte(p), EncBody(ver, p))

-----------------------------------------------------------------------------
(*                        Which packets can be sent                        *)

Text16(s) == Len(s) <= 65535

PropsFit(list) ==
  \A k \in DOMAIN list :
    LET ty == PropType[PropNum[list[k][1]]] x == list[k][2] IN
    CASE ty \in {"text", "data"} -> Text16(x)
      [] ty = "pair" -> Len(x) - 2 - (x[1] * 256 + x[2]) <= 65535
      [] ty = "var"  -> x[1] <= MaxVarInt
      [] OTHER -> TRUE

\* Well-formed in the sense of the round-trip properties.
WellFormed(ver, p) ==
  CASE p.t = "Connect" ->
         /\ Text16(p.id)
         /\ p.will # <<>> => /\ Text16(p.will[1].topic) /\ Text16(p.will[1].msg)
                             /\ PropsFit(p.will[1].props)
         /\ p.login # <<>> => /\ (p.login[1].u # <<>> \/ p.login[1].p # <<>>)
                              /\ Text16(p.login[1].u) /\ Text16(p.login[1].p)
         /\ PropsFit(p.props)
         /\ (ver = 5 /\ p.proto = "V4") =>
              (p.props = <<>> /\ (p.will # <<>> => p.will[1].props = <<>>))
    [] p.t = "Publish" -> /\ Text16(p.topic) /\ PropsFit(p.props)
                          /\ (p.qos = 0) = (p.pkid = 0)
    [] p.t = "Subscribe" -> /\ p.filters # <<>> /\ PropsFit(p.props)
                            /\ \A k \in DOMAIN p.filters : Text16(p.filters[k].path)
    [] p.t = "SubAck"    -> p.codes # <<>> /\ PropsFit(p.props)
    [] p.t = "UnsubAck"  -> /\ (ver = 5) => (p.codes # <<>>)
                            /\ PropsFit(p.props)
    [] p.t = "Unsubscribe" -> /\ p.topics # <<>> /\ PropsFit(p.props)
                              /\ \A k \in DOMAIN p.topics : Text16(p.topics[k])
    [] p.t \in {"PingReq", "PingResp"} -> TRUE
    [] OTHER -> PropsFit(p.props)

\* A write must be refused.
Unsendable(p) ==
  \/ p.t = "Publish" /\ p.qos # 0 /\ p.pkid = 0
  \/ "props" \in DOMAIN p /\ ~PropsFit(p.props)
  \/ p.t = "Connect" /\ \/ ~Text16(p.id)
                        \/ p.will # <<>> /\ ~(Text16(p.will[1].topic) /\ Text16(p.will[1].msg)
                                              /\ PropsFit(p.will[1].props))
                        \/ p.login # <<>> /\ ~(Text16(p.login[1].u) /\ Text16(p.login[1].p))
  \/ p.t = "Publish" /\ ~Text16(p.topic)
  \/ p.t = "Subscribe" /\ \E k \in DOMAIN p.filters : ~Text16(p.filters[k].path)
  \/ p.t = "Unsubscribe" /\ \E k \in DOMAIN p.topics : ~Text16(p.topics[k])

(* Every way the standard allows a packet to be written: properties in any *)
(* order, and the short forms of acknowledgements and DISCONNECT.          *)
Perms(l) == {[k \in DOMAIN l |-> l[q[k]]] : q \in {f \in [DOMAIN l -> DOMAIN l] :
               \A a, b \in DOMAIN l : a # b => f[a] # f[b]}}
\* keep the relative order of repeated properties
LegalOrder(l, m) == \A nm \in {l[k][1] : k \in DOMAIN l} :
   SelectSeq(l, LAMBDA x : x[1] = nm) = SelectSeq(m, LAMBDA x : x[1] = nm)
Orders(l) == {m \in Perms(l) : LegalOrder(l, m)}

LongForm(p) ==         \* reason code and property length spelled out
  CASE p.t \in {"PubAck", "PubRec", "PubRel", "PubComp"} ->
         Frame(FirstByte(p), PutU16(p.pkid) \o <<NumbersOf[CodeKey(5, p.t)][p.reason]>>
                             \o PutProps(p.props))
    [] p.t = "Disconnect" ->
         Frame(FirstByte(p), <<NumbersOf["v5Disconnect"][p.reason]>> \o PutProps(p.props))
    [] OTHER -> Encode(5, p)

CodeForm(p) ==         \* reason code spelled out, no property length
  IF p.props # <<>> THEN LongForm(p)
  ELSE CASE p.t \in {"PubAck", "PubRec", "PubRel", "PubComp"} ->
              Frame(FirstByte(p), PutU16(p.pkid) \o <<NumbersOf[CodeKey(5, p.t)][p.reason]>>)
         [] p.t = "Disconnect" ->
              Frame(FirstByte(p), <<NumbersOf["v5Disconnect"][p.reason]>>)
         [] OTHER -> Encode(5, p)

Forms(ver, p) ==
  {Encode(ver, p)}
  \cup (IF ver = 4 \/ "props" \notin DOMAIN p THEN {}
        ELSE UNION {{Encode(5, q), LongForm(q), CodeForm(q)} :
                    q \in {[p EXCEPT !.props = o] : o \in Orders(p.props)}})
=============================================================================
