------------------------------ MODULE MCBuilder -----------------------------
(***************************************************************************)
(* Every sequence of constructor and setter calls up to a length, with     *)
(* arguments from small sets.  They are exported (OUT) and carried out on  *)
(* the library.                                                            *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils, CSV

CONSTANT MaxCalls

VARIABLES ver, draft, ops
vars == <<ver, draft, ops>>

Tx == {<<97>>, <<>>, <<195, 164>>}

FilterArgs(v) ==
  [path : {<<97>>, <<35>>}, qos : {0, 2},
   set : IF v = 4 THEN {<<>>}
         ELSE {<<>>, <<[op |-> "nolocal", b |-> TRUE]>>,
               <<[op |-> "preserve_retain", b |-> TRUE], [op |-> "nolocal", b |-> FALSE]>>,
               <<[op |-> "retain_forward_rule", rule |-> "Never"],
                 [op |-> "retain_forward_rule", rule |-> "OnNewSubscribe"]>>}]

Starts(v) ==
  {[op |-> "connect", id |-> x] : x \in Tx}
  \cup {[op |-> "connack", sp |-> b, code |-> c] : b \in BOOLEAN, c \in DOMAIN NumbersOf[CodeKey(v, "ConnAck")]}
  \cup {[op |-> o, topic |-> x, qos |-> q, payload |-> y] :
          o \in {"publish", "publish_bytes"}, x \in Tx, q \in 0..2, y \in {<<>>, <<0, 255>>}}
  \cup {[op |-> "ack", t |-> t, pkid |-> k] :
          t \in {"PubAck", "PubRec", "PubRel", "PubComp"}, k \in {0, 1, 256, 65535}}
  \cup {[op |-> "subscribe", path |-> x, qos |-> q] : x \in Tx, q \in 0..2}
  \cup {[op |-> "subscribe_many", filters |-> l] :
          l \in {<<>>} \cup {<<f>> : f \in FilterArgs(v)} \cup {<<f, g>> : f \in FilterArgs(v), g \in FilterArgs(v)}}
  \cup (IF v = 5 THEN {[op |-> "subscribe_empty"]} ELSE {})
  \cup {[op |-> "suback", pkid |-> k, codes |-> l] : k \in {1, 256},
          l \in {<<>>} \cup {<<c>> : c \in DOMAIN NumbersOf[CodeKey(v, "SubAck")]}
                \cup {<<c, "QoS1">> : c \in DOMAIN NumbersOf[CodeKey(v, "SubAck")]}}
  \cup {[op |-> "unsuback", pkid |-> k] : k \in {0, 1, 65535}}
  \cup {[op |-> "unsubscribe", topic |-> x] : x \in Tx}
  \cup {[op |-> "disconnect"]}

Follows(d, v) ==
  CASE d.t = "Connect" ->
         {[op |-> "set_login", u |-> u, p |-> w] : u \in {<<>>, <<97>>}, w \in {<<>>, <<98>>}}
         \cup {[op |-> "set_will", topic |-> x, msg |-> m, qos |-> q, retain |-> r] :
                 x \in {<<97>>}, m \in {<<>>, <<1>>}, q \in {0, 2}, r \in BOOLEAN}
         \cup (IF v = 4 /\ d.login # <<>>
               THEN {[op |-> "validate", u |-> u, p |-> w] : u \in {<<>>, <<97>>}, w \in {<<>>, <<97>>, <<98>>}}
               ELSE {})
         \cup {[op |-> "put", f |-> "ka", n |-> k] : k \in {0, 300}}
         \cup {[op |-> "put", f |-> "clean", b |-> FALSE]}
         \cup {[op |-> "put", f |-> "id", x |-> <<99>>]}
         \cup (IF v = 5 THEN {[op |-> "put", f |-> "props", l |-> << <<"ReceiveMaximum", <<0, 9>> >> >>]} ELSE {})
    [] d.t = "Subscribe" -> {[op |-> "add", path |-> x, qos |-> q] : x \in {<<97>>, <<98>>}, q \in {0, 1}}
         \cup {[op |-> "put", f |-> "pkid", n |-> 7]}
         \cup (IF v = 5 THEN {[op |-> "put", f |-> "props", l |-> << <<"SubscriptionIdentifier", <<5>> >> >>],
                              [op |-> "tune", at |-> 1, set |-> <<[op |-> "nolocal", b |-> TRUE]>>]} ELSE {})
    [] d.t = "Publish" -> {[op |-> "put", f |-> "retain", b |-> TRUE], [op |-> "put", f |-> "pkid", n |-> 3]}
    [] d.t = "Unsubscribe" -> {[op |-> "put", f |-> "pkid", n |-> 3]}
    [] v = 5 /\ d.t \in {"ConnAck", "Disconnect"} -> {[op |-> "empty_props"]}
    [] OTHER -> {}

Calls == IF draft.t = "Nothing" THEN Starts(ver) ELSE Follows(draft, ver)

Init == ver \in {4, 5} /\ draft = Nothing /\ ops = <<>>
Next == /\ Len(ops) < MaxCalls
        /\ draft.t = "Subscribe" /\ Len(draft.filters) > 1 => Len(ops) < 2
        /\ \E c \in Calls :
             /\ Enabled(draft, c)
             /\ draft' = Apply(ver, draft, c)
             /\ ops' = Append(ops, c)
        /\ UNCHANGED ver
Spec == Init /\ [][Next]_vars

\* A packet comes out, or the one refusal there is.
Sound == draft.t \in PacketTypes \cup {"Nothing", "Refused"}
Refusal == (draft.t = "Refused") <=>
   (ver = 4 /\ ops # <<>> /\ ops[1].op = "subscribe_many" /\ ops[1].filters = <<>>)
\* A call changes nothing but what it says.
Frame_ == [][ (draft.t = "Connect") =>
   LET c == ops'[Len(ops')] IN
   /\ c.op # "put" => /\ draft'.id = draft.id /\ draft'.clean = draft.clean
                      /\ draft'.ka = draft.ka /\ draft'.props = draft.props
   /\ c.op # "set_will" => draft'.will = draft.will
   /\ c.op # "set_login" => draft'.login = draft.login ]_vars

Export == ops # <<>> =>
  CSVWrite("%1$s", <<ToJson([k |-> "build", ver |-> ver, ops |-> ops])>>, IOEnv.OUT \o ".builds")
=============================================================================
