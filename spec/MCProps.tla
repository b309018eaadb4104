------------------------------- MODULE MCProps ------------------------------
(***************************************************************************)
(* Every place a property section can be, with every identifier byte, with *)
(* right and wrong section lengths (C15); and every place a code can be,   *)
(* with every byte (C19).  The frames are exported and read by the         *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS Packets, Json, IOUtils, CSV

Places == DOMAIN Allowed
CodeTypes(v) == {t \in PacketTypes : t \in {"ConnAck", "SubAck"}
                   \/ (v = 5 /\ t \in {"PubAck", "PubRec", "PubRel", "PubComp", "UnsubAck", "Disconnect"})}

\* A frame of the place whose section holds the bytes sec and declares n.
FrameWith(where, n, sec) ==
  LET S == PutVarInt(n) \o sec IN
  CASE where = "Connect" -> Frame(16, PutData(MQTT) \o <<5, 2, 0, 10>> \o S \o PutData(A))
    [] where = "Will" -> Frame(16, PutData(MQTT) \o <<5, 6, 0, 10, 0>> \o PutData(A) \o S \o PutData(A) \o PutData(A))
    [] where = "ConnAck" -> Frame(32, <<0, 0>> \o S)
    [] where = "Publish" -> Frame(48, PutData(A) \o S \o <<38, 0>>)
    [] where \in {"PubAck", "PubRec", "PubRel", "PubComp"} ->
         Frame(16 * TypeNum[where] + HeaderFlags(where), <<0, 1, 0>> \o S)
    [] where = "Subscribe" -> Frame(130, <<0, 1>> \o S \o PutData(A) \o <<1>>)
    [] where \in {"SubAck", "UnsubAck"} -> Frame(16 * TypeNum[where], <<0, 1>> \o S \o <<0>>)
    [] where = "Unsubscribe" -> Frame(162, <<0, 1>> \o S \o PutData(A))
    [] where = "Disconnect" -> Frame(224, <<0>> \o S)

Value(id) == IF id \notin PropIds THEN <<0, 1, 97>>
             ELSE LET x == One(id) IN
                  CASE PropType[id] \in {"u8", "u16", "u32"} -> x
                    [] PropType[id] = "var" -> PutVarInt(x[1])
                    [] PropType[id] = "pair" -> <<0, 1, 97, 0, 1, 98>>
                    [] OTHER -> PutData(x)
\* the method that authentication data needs
Before(id) == IF id = 22 THEN <<21, 0, 1, 97>> ELSE <<>>

VARIABLES ver, where, byte, delta, kind
vars == <<ver, where, byte, delta, kind>>
Init == \/ kind = "prop" /\ ver = 5 /\ where \in Places /\ byte = 0 /\ delta = 0
        \/ kind = "code" /\ ver \in {4, 5} /\ where \in CodeTypes(ver) /\ byte = 0 /\ delta = 0
Next == \/ byte < 255 /\ delta = 0 /\ byte' = byte + 1 /\ UNCHANGED <<ver, where, delta, kind>>
        \/ kind = "prop" /\ delta = 0 /\ byte \in PropIds /\ delta' \in {1, 2, 3, 9} /\ UNCHANGED <<ver, where, byte, kind>>
Spec == Init /\ [][Next]_vars

Sec(id) == Before(id) \o <<id>> \o Value(id)
\* delta 1: one byte too few, 2: one too many, 3: half a value, 9: nothing declared
PropFrame == LET sec == Sec(byte) IN
  CASE delta = 0 -> FrameWith(where, Len(sec), sec)
    [] delta = 1 -> FrameWith(where, Len(sec) - 1, sec)
    [] delta = 2 -> FrameWith(where, Len(sec) + 1, sec)
    [] delta = 3 -> FrameWith(where, Len(sec) - 1, SubSeq(sec, 1, Len(sec) - 1))
    [] delta = 9 -> FrameWith(where, 0, sec)
CodeFrame ==
  CASE where = "ConnAck" -> Frame(32, <<0, byte>> \o (IF ver = 5 THEN <<0>> ELSE <<>>))
    [] where \in {"PubAck", "PubRec", "PubRel", "PubComp"} ->
         Frame(16 * TypeNum[where] + HeaderFlags(where), <<0, 1, byte>>)
    [] where \in {"SubAck", "UnsubAck"} ->
         Frame(16 * TypeNum[where], <<0, 1>> \o (IF ver = 5 THEN <<0>> ELSE <<>>) \o <<byte>>)
    [] where = "Disconnect" -> Frame(224, <<byte>>)
Bytes == IF kind = "prop" THEN PropFrame ELSE CodeFrame

D == Decode(ver, Bytes)
OnlyWhereAllowed == (kind = "prop" /\ delta = 0) => (D.ok <=> byte \in Allowed[where])
\* A section that does not end where a property ends is malformed; one that
\* declares less or more than it holds never gives the property.
EndsExactly == (kind = "prop" /\ delta \in {1, 3} /\ byte \in Allowed[where]) => ~D.ok
Codes == kind = "code" => (D.ok <=> byte \in DOMAIN CodesOf[CodeKey(ver, where)])
CodeBack == (kind = "code" /\ D.ok) =>
  LET name == IF where \in {"SubAck", "UnsubAck"} THEN D.v.codes[1]
              ELSE IF where = "ConnAck" THEN D.v.code ELSE D.v.reason
  IN NumbersOf[CodeKey(ver, where)][name] = byte

\* The tables are one to one.
ASSUME \A k \in DOMAIN CodesOf : \A a, b \in DOMAIN CodesOf[k] :
         CodesOf[k][a] = CodesOf[k][b] => a = b
ASSUME \A id \in PropIds : \E w \in Places : id \in Allowed[w]

Export == CSVWrite("%1$s", <<ToJson([k |-> "frame", ver |-> ver, s |-> Bytes])>>,
                   IOEnv.OUT \o "." \o kind)
=============================================================================
