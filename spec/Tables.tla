------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The numbers the two protocols assign: packet types, return and reason   *)
(* codes, property identifiers with their data types, and which packet may *)
(* carry which property.  Transcribed from the OASIS specifications, not   *)
(* from the code: names on the left are the names of the Rust API, numbers *)
(* on the right the protocol's.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

TypeName == 1 :> "Connect" @@ 2 :> "ConnAck" @@ 3 :> "Publish" @@ 4 :> "PubAck"
   @@ 5 :> "PubRec" @@ 6 :> "PubRel" @@ 7 :> "PubComp" @@ 8 :> "Subscribe"
   @@ 9 :> "SubAck" @@ 10 :> "Unsubscribe" @@ 11 :> "UnsubAck"
   @@ 12 :> "PingReq" @@ 13 :> "PingResp" @@ 14 :> "Disconnect"

Invert(f) == [x \in {f[k] : k \in DOMAIN f} |-> CHOOSE k \in DOMAIN f : f[k] = x]

TypeNum == Invert(TypeName)
PacketTypes == DOMAIN TypeNum

\* The low four bits of the first byte for every type but PUBLISH.
HeaderFlags(t) == IF t \in {"PubRel", "Subscribe", "Unsubscribe"} THEN 2 ELSE 0

-----------------------------------------------------------------------------
(* Return codes of MQTT 3.1.1 (3.2.2.3, 3.9.3)                             *)

ConnAck4 == 0 :> "Success" @@ 1 :> "RefusedProtocolVersion" @@ 2 :> "BadClientId"
   @@ 3 :> "ServiceUnavailable" @@ 4 :> "BadUserNamePassword" @@ 5 :> "NotAuthorized"

SubAck4 == 0 :> "QoS0" @@ 1 :> "QoS1" @@ 2 :> "QoS2" @@ 128 :> "Failure"

(* Reason codes of MQTT 5 (2.4)                                            *)

ConnAck5 == 0 :> "Success" @@ 128 :> "UnspecifiedError" @@ 129 :> "MalformedPacket"
   @@ 130 :> "ProtocolError" @@ 131 :> "ImplementationSpecificError"
   @@ 132 :> "UnsupportedProtocolVersion" @@ 133 :> "ClientIdentifierNotValid"
   @@ 134 :> "BadUserNamePassword" @@ 135 :> "NotAuthorized"
   @@ 136 :> "ServerUnavailable" @@ 137 :> "ServerBusy" @@ 138 :> "Banned"
   @@ 140 :> "BadAuthenticationMethod" @@ 144 :> "TopicNameInvalid"
   @@ 149 :> "PacketTooLarge" @@ 151 :> "QuotaExceeded"
   @@ 153 :> "PayloadFormatInvalid" @@ 154 :> "RetainNotSupported"
   @@ 155 :> "QoSNotSupported" @@ 156 :> "UseAnotherServer" @@ 157 :> "ServerMoved"
   @@ 159 :> "ConnectionRateExceeded"

PubAck5 == 0 :> "Success" @@ 16 :> "NoMatchingSubscribers" @@ 128 :> "UnspecifiedError"
   @@ 131 :> "ImplementationSpecificError" @@ 135 :> "NotAuthorized"
   @@ 144 :> "TopicNameInvalid" @@ 145 :> "PacketIdentifierInUse"
   @@ 151 :> "QuotaExceeded" @@ 153 :> "PayloadFormatInvalid"
PubRec5 == PubAck5
PubRel5 == 0 :> "Success" @@ 146 :> "PacketIdentifierNotFound"
PubComp5 == PubRel5

SubAck5 == 0 :> "QoS0" @@ 1 :> "QoS1" @@ 2 :> "QoS2" @@ 128 :> "Unspecified"
   @@ 131 :> "ImplementationSpecific" @@ 135 :> "NotAuthorized"
   @@ 143 :> "TopicFilterInvalid" @@ 145 :> "PkidInUse" @@ 151 :> "QuotaExceeded"
   @@ 158 :> "SharedSubscriptionsNotSupported" @@ 161 :> "SubscriptionIdNotSupported"
   @@ 162 :> "WildcardSubscriptionsNotSupported"

UnsubAck5 == 0 :> "Success" @@ 17 :> "NoSubscriptionExisted" @@ 128 :> "UnspecifiedError"
   @@ 131 :> "ImplementationSpecificError" @@ 135 :> "NotAuthorized"
   @@ 143 :> "TopicFilterInvalid" @@ 145 :> "PacketIdentifierInUse"

Disconnect5 == 0 :> "NormalDisconnection" @@ 4 :> "DisconnectWithWillMessage"
   @@ 128 :> "UnspecifiedError" @@ 129 :> "MalformedPacket" @@ 130 :> "ProtocolError"
   @@ 131 :> "ImplementationSpecificError" @@ 135 :> "NotAuthorized"
   @@ 137 :> "ServerBusy" @@ 139 :> "ServerShuttingDown" @@ 141 :> "KeepAliveTimeout"
   @@ 142 :> "SessionTakenOver" @@ 143 :> "TopicFilterInvalid"
   @@ 144 :> "TopicNameInvalid" @@ 147 :> "ReceiveMaximumExceeded"
   @@ 148 :> "TopicAliasInvalid" @@ 149 :> "PacketTooLarge"
   @@ 150 :> "MessageRateTooHigh" @@ 151 :> "QuotaExceeded"
   @@ 152 :> "AdministrativeAction" @@ 153 :> "PayloadFormatInvalid"
   @@ 154 :> "RetainNotSupported" @@ 155 :> "QoSNotSupported"
   @@ 156 :> "UseAnotherServer" @@ 157 :> "ServerMoved"
   @@ 158 :> "SharedSubscriptionNotSupported" @@ 159 :> "ConnectionRateExceeded"
   @@ 160 :> "MaximumConnectTime" @@ 161 :> "SubscriptionIdentifiersNotSupported"
   @@ 162 :> "WildcardSubscriptionsNotSupported"

\* Code table of a packet type, number -> name and name -> number.
CodesOf == [v4ConnAck |-> ConnAck4, v4SubAck |-> SubAck4,
            v5ConnAck |-> ConnAck5, v5PubAck |-> PubAck5, v5PubRec |-> PubRec5,
            v5PubRel |-> PubRel5, v5PubComp |-> PubComp5, v5SubAck |-> SubAck5,
            v5UnsubAck |-> UnsubAck5, v5Disconnect |-> Disconnect5]
NumbersOf == [k \in DOMAIN CodesOf |-> Invert(CodesOf[k])]
CodeKey(ver, t) ==
  IF ver = 4 THEN (IF t = "ConnAck" THEN "v4ConnAck" ELSE "v4SubAck")
  ELSE CASE t = "ConnAck" -> "v5ConnAck" [] t = "PubAck" -> "v5PubAck"
         [] t = "PubRec" -> "v5PubRec" [] t = "PubRel" -> "v5PubRel"
         [] t = "PubComp" -> "v5PubComp" [] t = "SubAck" -> "v5SubAck"
         [] t = "UnsubAck" -> "v5UnsubAck" [] t = "Disconnect" -> "v5Disconnect"

RetainRule == 0 :> "OnEverySubscribe" @@ 1 :> "OnNewSubscribe" @@ 2 :> "Never"
RetainNum  == Invert(RetainRule)
LevelName  == 4 :> "V4" @@ 5 :> "V5"
LevelNum   == Invert(LevelName)

-----------------------------------------------------------------------------
(* MQTT 5 properties (2.2.2.2, table 2-4): identifier, name, data type     *)

PropTable == <<
  <<1, "PayloadFormatIndicator", "u8">>,      <<2, "MessageExpiryInterval", "u32">>,
  <<3, "ContentType", "text">>,               <<8, "ResponseTopic", "text">>,
  <<9, "CorrelationData", "data">>,           <<11, "SubscriptionIdentifier", "var">>,
  <<17, "SessionExpiryInterval", "u32">>,     <<18, "AssignedClientIdentifier", "text">>,
  <<19, "ServerKeepAlive", "u16">>,           <<21, "AuthenticationMethod", "text">>,
  <<22, "AuthenticationData", "data">>,       <<23, "RequestProblemInformation", "u8">>,
  <<24, "WillDelayInterval", "u32">>,         <<25, "RequestResponseInformation", "u8">>,
  <<26, "ResponseInformation", "text">>,      <<28, "ServerReference", "text">>,
  <<31, "ReasonString", "text">>,             <<33, "ReceiveMaximum", "u16">>,
  <<34, "TopicAliasMaximum", "u16">>,         <<35, "TopicAlias", "u16">>,
  <<36, "MaximumQos", "u8">>,                 <<37, "RetainAvailable", "u8">>,
  <<38, "UserProperty", "pair">>,             <<39, "MaximumPacketSize", "u32">>,
  <<40, "WildcardSubscriptionAvailable", "u8">>,
  <<41, "SubscriptionIdentifierAvailable", "u8">>,
  <<42, "SharedSubscriptionAvailable", "u8">> >>

PropIds   == {PropTable[k][1] : k \in DOMAIN PropTable}
PropRow   == [id \in PropIds |-> CHOOSE r \in {PropTable[k] : k \in DOMAIN PropTable} : r[1] = id]
PropName  == [id \in PropIds |-> PropRow[id][2]]
PropType  == [id \in PropIds |-> PropRow[id][3]]
PropNum   == Invert(PropName)

\* "Will" is the will section inside CONNECT.
Allowed == [
  Connect     |-> {17, 33, 39, 34, 25, 23, 38, 21, 22},
  Will        |-> {24, 1, 2, 3, 8, 9, 38},
  ConnAck     |-> {17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22},
  Publish     |-> {1, 2, 35, 8, 9, 38, 11, 3},
  PubAck      |-> {31, 38},  PubRec |-> {31, 38},
  PubRel      |-> {31, 38},  PubComp |-> {31, 38},
  Subscribe   |-> {11, 38},  SubAck |-> {31, 38},
  Unsubscribe |-> {38},      UnsubAck |-> {31, 38},
  Disconnect  |-> {17, 31, 38, 28} ]

\* May occur more than once.
Repeatable(where, id) == id = 38 \/ (where = "Publish" /\ id = 11)

\* The identifiers of a packet's properties in ascending order.
SortedIds(S) == SelectSeq([k \in DOMAIN PropTable |-> PropTable[k][1]], LAMBDA x : x \in S)
AllowedSeq == [w \in DOMAIN Allowed |-> SortedIds(Allowed[w])]
=============================================================================
