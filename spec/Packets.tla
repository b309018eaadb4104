------------------------------- MODULE Packets ------------------------------
(***************************************************************************)
(* A bounded universe of packets of both versions: every type, every flag, *)
(* every code, every property alone, in pairs and all together, fields     *)
(* from small sets of telling values.  The model checker walks it          *)
(* (MCCodec) and the library is replayed on it.                            *)
(***************************************************************************)
EXTENDS Judge

A  == <<97>>                       \* a
AE == <<195, 164>>                 \* a with diaeresis
AB == <<97, 47, 98>>               \* a/b
Texts == {<<>>, A, AE}
Pkids == {1, 258, 65535}

\* Values of a property, by data type; by name where the standard restricts.
Values(id) ==
  CASE PropType[id] = "u8"   -> {<<0>>, <<1>>}
    [] PropType[id] = "u16"  -> {<<0, 1>>, <<1, 2>>, <<255, 255>>}
    [] PropType[id] = "u32"  -> {<<0, 0, 0, 1>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>}
    [] PropType[id] = "var"  -> {<<1>>, <<127>>, <<128>>, <<16383>>, <<16384>>, <<2097151>>,
                                 <<2097152>>, <<MaxVarInt>>}
    [] id = 8                -> {A, AB}
    [] PropType[id] = "text" -> Texts
    [] PropType[id] = "data" -> {<<>>, <<0>>, <<255, 38, 11>>}
    [] PropType[id] = "pair" -> {<<0, 0>>, <<0, 1, 97, 98>>, <<0, 2, 195, 164>>, <<0, 0, 97>>}

P(id, x) == <<PropName[id], x>>
One(id)  == CHOOSE x \in Values(id) : x # <<>> /\ x # <<0>>
Two(id)  == CHOOSE x \in Values(id) : x # One(id) /\ x # <<>> /\ (id # 9 => x # <<0>>)

\* Authentication data needs a method.
Whole(list) == IF \E k \in DOMAIN list : list[k][1] = "AuthenticationData"
               THEN IF \E k \in DOMAIN list : list[k][1] = "AuthenticationMethod" THEN list
                    ELSE <<P(21, A)>> \o list
               ELSE list

\* All properties at once, as far as possible with the same value.
TwinValue(id, x) ==
  CASE PropType[id] = "u8"  -> <<1>>
    [] PropType[id] = "u16" -> <<1, 2>>
    [] PropType[id] = "u32" -> <<0, 0, 1, 2>>
    [] PropType[id] = "var" -> <<258>>
    [] PropType[id] \in {"text", "data"} -> x
    [] PropType[id] = "pair" -> <<0, Len(x)>> \o x \o x
Twins(where, x) == LET seq == AllowedSeq[where] IN [k \in DOMAIN seq |-> P(seq[k], TwinValue(seq[k], x))]

PropLists(where) ==
  LET ids == Allowed[where] seq == AllowedSeq[where]
      Single == UNION {{<<P(id, x)>> : x \in Values(id)} : id \in ids}
      Pairs  == {<<P(a, One(a)), P(b, One(b))>> : a \in ids, b \in ids}
      Twice  == {<<P(id, One(id)), P(id, Two(id))>> : id \in {i \in ids : Repeatable(where, i)}}
      Thrice == {<<P(38, One(38)), P(38, Two(38)), P(38, One(38))>>}
      All    == {[k \in DOMAIN seq |-> P(seq[k], One(seq[k]))]}
      Asc(l) == \A k \in 1..(Len(l) - 1) : PropNum[l[k][1]] < PropNum[l[k + 1][1]]
  IN  {CanonProps(where, Whole(l)) :
         l \in {<<>>} \cup Single \cup {l \in Pairs : Asc(l)} \cup Twice \cup Thrice \cup All
              \cup {Twins(where, A), Twins(where, AB)}}
\* A short selection, for products.
Few(where) == {<<>>, <<P(38, One(38))>>}

Props(ver, where) == IF ver = 4 THEN {<<>>} ELSE PropLists(where)
FewProps(ver, where) == IF ver = 4 THEN {<<>>} ELSE Few(where)

Wills(ver) ==
  {<<>>}
  \cup {<<[topic |-> AB, msg |-> m, qos |-> q, retain |-> r, props |-> l]>> :
          m \in {<<>>, <<0, 255>>}, q \in 0..2, r \in BOOLEAN, l \in FewProps(ver, "Will")}
Logins == {<<>>, <<[u |-> A, p |-> <<>>]>>, <<[u |-> <<>>, p |-> AE]>>, <<[u |-> A, p |-> AE]>>}

MkConnect(proto, ka, id, clean, will, login, props) ==
  [t |-> "Connect", proto |-> proto, ka |-> ka, id |-> id, clean |-> clean,
   will |-> will, login |-> login, props |-> props]
Connects(ver) ==
  {MkConnect(LevelName[ver], ka, A, c, w, lg, <<>>) :
     ka \in {0, 258}, c \in BOOLEAN, w \in Wills(ver), lg \in Logins}
  \cup {MkConnect(LevelName[ver], 65535, id, TRUE, <<>>, <<>>, l) :
          id \in {<<>>, AE}, l \in Props(ver, "Connect")}
  \cup {MkConnect(LevelName[ver], 10, A, TRUE,
                  <<[topic |-> A, msg |-> A, qos |-> 1, retain |-> TRUE, props |-> l]>>, lg, pl) :
          l \in Props(ver, "Will"), lg \in {<<>>, <<[u |-> A, p |-> A]>>}, pl \in FewProps(ver, "Connect")}
  \cup {MkConnect("V4", 10, A, TRUE, w, lg, <<>>) :
          w \in {x \in Wills(4) : TRUE}, lg \in {<<>>, <<[u |-> A, p |-> A]>>}}

Plain0(path) == [path |-> path, qos |-> 0, nl |-> FALSE, rap |-> FALSE, rh |-> "OnEverySubscribe"]
\* Odd, but nothing keeps them from being sent: everything empty.
Empties(ver) ==
  {MkConnect(LevelName[ver], 0, <<>>, c, <<[topic |-> <<>>, msg |-> m, qos |-> 1, retain |-> r, props |-> <<>>]>>, lg, <<>>) :
     c \in BOOLEAN, m \in {<<>>, A}, r \in BOOLEAN, lg \in Logins}
  \cup {[t |-> "Publish", dup |-> FALSE, qos |-> 1, retain |-> r, topic |-> <<>>, pkid |-> 1, props |-> <<>>, payload |-> b] :
     r \in BOOLEAN, b \in {<<>>, A}}
  \cup {[t |-> "Subscribe", pkid |-> 1, filters |-> l, props |-> <<>>] :
     l \in {<<Plain0(<<>>)>>, <<Plain0(<<>>), Plain0(<<>>)>>, <<Plain0(A), Plain0(<<>>)>>}}
  \cup {[t |-> "Unsubscribe", pkid |-> 1, topics |-> l, props |-> <<>>] :
     l \in {<<<<>>>>, <<<<>>, <<>>>>, <<A, <<>>>>}}

ConnAcks(ver) ==
  {[t |-> "ConnAck", sp |-> sp, code |-> c, props |-> l] :
     sp \in BOOLEAN, c \in DOMAIN NumbersOf[CodeKey(ver, "ConnAck")], l \in FewProps(ver, "ConnAck")}
  \cup {[t |-> "ConnAck", sp |-> FALSE, code |-> "Success", props |-> l] : l \in Props(ver, "ConnAck")}

MkPublish(dup, q, ret, topic, pkid, l, body) ==
  [t |-> "Publish", dup |-> dup, qos |-> q, retain |-> ret, topic |-> topic,
   pkid |-> pkid, props |-> l, payload |-> body]
Publishes(ver) ==
  {MkPublish(d, q, r, tp, k, l, b) :
     d \in BOOLEAN, q \in 1..2, r \in BOOLEAN, tp \in {A, AE}, k \in {1, 258}, l \in FewProps(ver, "Publish"),
     b \in {<<>>, <<0>>, <<38, 0, 0>>}}
  \cup {MkPublish(FALSE, 0, r, AB, 0, l, b) :
     r \in BOOLEAN, l \in Props(ver, "Publish"), b \in {<<>>, <<11, 128>>}}
  \cup (IF ver = 4 THEN {}
        ELSE {MkPublish(FALSE, 1, FALSE, <<>>, 7, <<P(35, <<0, 1>>)>>, A),
              MkPublish(FALSE, 0, FALSE, A, 0, <<P(11, <<MaxVarInt>>), P(11, <<1>>), P(11, <<128>>)>>, A)})

Acks(ver) ==
  UNION {
    {[t |-> t, pkid |-> k, reason |-> "Success", props |-> l] : k \in Pkids, l \in Props(ver, t)}
    \cup (IF ver = 4 THEN {}
          ELSE {[t |-> t, pkid |-> 258, reason |-> c, props |-> l] :
                  c \in DOMAIN NumbersOf[CodeKey(ver, t)], l \in Few(t)})
    : t \in {"PubAck", "PubRec", "PubRel", "PubComp"}}

MkFilter(path, q, nl, rap, rh) == [path |-> path, qos |-> q, nl |-> nl, rap |-> rap, rh |-> rh]
Plain(path, q) == MkFilter(path, q, FALSE, FALSE, "OnEverySubscribe")
Options(ver) ==
  IF ver = 4 THEN {Plain(AB, q) : q \in 0..2}
  ELSE {MkFilter(AB, q, a, b, h) : q \in 0..2, a \in BOOLEAN, b \in BOOLEAN, h \in DOMAIN RetainNum}
Subscribes(ver) ==
  {[t |-> "Subscribe", pkid |-> k, filters |-> <<f>>, props |-> <<>>] : k \in Pkids, f \in Options(ver)}
  \cup {[t |-> "Subscribe", pkid |-> 258, filters |-> <<Plain(A, 0)>> \o l, props |-> pl] :
          l \in {<<>>, <<Plain(<<35>>, 2)>>, <<Plain(AE, 1), Plain(<<43, 47, 35>>, 0)>>},
          pl \in Props(ver, "Subscribe")}

SubAcks(ver) ==
  LET codes == DOMAIN NumbersOf[CodeKey(ver, "SubAck")] IN
  {[t |-> "SubAck", pkid |-> k, codes |-> <<c>>, props |-> <<>>] : k \in Pkids, c \in codes}
  \cup {[t |-> "SubAck", pkid |-> 258, codes |-> <<"QoS1", c>>, props |-> l] :
          c \in codes, l \in FewProps(ver, "SubAck")}
  \cup {[t |-> "SubAck", pkid |-> 258, codes |-> <<"QoS2", "QoS0", "QoS1">>, props |-> l] :
          l \in Props(ver, "SubAck")}

Unsubscribes(ver) ==
  {[t |-> "Unsubscribe", pkid |-> k, topics |-> l, props |-> <<>>] :
     k \in Pkids, l \in {<<A>>, <<A, AE>>, <<AB, <<35>>, A>>}}
  \cup {[t |-> "Unsubscribe", pkid |-> 258, topics |-> <<A>>, props |-> l] : l \in Props(ver, "Unsubscribe")}

UnsubAcks(ver) ==
  IF ver = 4 THEN {[t |-> "UnsubAck", pkid |-> k, codes |-> <<>>, props |-> <<>>] : k \in Pkids}
  ELSE {[t |-> "UnsubAck", pkid |-> k, codes |-> l, props |-> <<>>] :
          k \in Pkids, l \in {<<c>> : c \in DOMAIN NumbersOf["v5UnsubAck"]}
                             \cup {<<"Success", c>> : c \in DOMAIN NumbersOf["v5UnsubAck"]}}
       \cup {[t |-> "UnsubAck", pkid |-> 258, codes |-> <<"NotAuthorized", "Success">>, props |-> l] :
               l \in PropLists("UnsubAck")}

Pings == {[t |-> "PingReq"], [t |-> "PingResp"]}

Disconnects(ver) ==
  IF ver = 4 THEN {[t |-> "Disconnect", reason |-> "NormalDisconnection", props |-> <<>>]}
  ELSE {[t |-> "Disconnect", reason |-> c, props |-> l] :
          c \in DOMAIN NumbersOf["v5Disconnect"], l \in Few("Disconnect")}
       \cup {[t |-> "Disconnect", reason |-> c, props |-> l] :
               c \in {"NormalDisconnection", "ServerMoved"}, l \in PropLists("Disconnect")}

OfType(ver, t) ==
  {p \in Empties(ver) : p.t = t} \cup
  CASE t = "Connect" -> Connects(ver) [] t = "ConnAck" -> ConnAcks(ver)
    [] t = "Publish" -> Publishes(ver)
    [] t \in {"PubAck", "PubRec", "PubRel", "PubComp"} -> {p \in Acks(ver) : p.t = t}
    [] t = "Subscribe" -> Subscribes(ver) [] t = "SubAck" -> SubAcks(ver)
    [] t = "Unsubscribe" -> Unsubscribes(ver) [] t = "UnsubAck" -> UnsubAcks(ver)
    [] t \in {"PingReq", "PingResp"} -> {p \in Pings : p.t = t}
    [] t = "Disconnect" -> Disconnects(ver)

\* Packets that must not be sent, and that can be built.
Unsendables(ver) ==
  {MkPublish(FALSE, q, FALSE, A, 0, <<>>, b) : q \in 1..2, b \in {<<>>, A}}
\* Forms, without the factorially many orders of long property lists.
WireForms(v, p) ==
  IF "props" \notin DOMAIN p THEN Forms(v, p)
  ELSE IF Len(p.props) <= 3 THEN Forms(v, p)
  ELSE {Encode(v, p)} \cup
       LET q == [p EXCEPT !.props = Reverse(@)] IN
       IF LegalOrder(p.props, q.props) THEN {Encode(v, q)} ELSE {}
=============================================================================
