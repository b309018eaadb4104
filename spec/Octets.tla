------------------------------- MODULE Octets -------------------------------
(***************************************************************************)
(* Primitive wire representations shared by MQTT 3.1.1 and MQTT 5          *)
(* (OASIS MQTT 3.1.1 chapter 1.5 / 2.2.3, MQTT 5 chapter 1.5).             *)
(*                                                                         *)
(* A byte string is a sequence of numbers 0..255.  Every reader below      *)
(* works on a window s[i..hi] of such a sequence and returns either        *)
(*    [ok |-> TRUE,  v |-> value, i |-> next index, d |-> deviations]      *)
(*    [ok |-> FALSE, e |-> <<defect, number>>, d |-> deviations]           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, VarInt

Ok(val, nxt)        == [ok |-> TRUE, v |-> val, i |-> nxt, d |-> {}]
OkD(val, nxt, devs) == [ok |-> TRUE, v |-> val, i |-> nxt, d |-> devs]
Bad(defect, num)    == [ok |-> FALSE, e |-> <<defect, num>>, d |-> {}]
BadD(r, devs)       == [ok |-> FALSE, e |-> r.e, d |-> r.d \cup devs]

-----------------------------------------------------------------------------
(* Fixed-size numbers, most significant byte first.                        *)

PutU16(n) == << (n \div 256) % 256, n % 256 >>

GetU8(s, i, hi)  == IF i > hi THEN Bad("Cut", 0) ELSE Ok(s[i], i + 1)
GetU16(s, i, hi) == IF i + 1 > hi THEN Bad("Cut", 0)
                    ELSE Ok(s[i] * 256 + s[i + 1], i + 2)
\* A fixed number of raw bytes (32-bit numbers are kept as four bytes:
\* TLC's integers are 32-bit and signed).
GetRaw(n, s, i, hi) == IF i + n - 1 > hi THEN Bad("Cut", 0)
                       ELSE Ok(SubSeq(s, i, i + n - 1), i + n)

-----------------------------------------------------------------------------
(* Variable byte integer: PutVarInt and VarIntAt of module VarInt.         *)

GetVarInt(s, i, hi) ==
  LET r == VarIntAt(s, i, hi) IN
  CASE r.st = "short" -> Bad("Cut", 0)
    [] r.st = "long"  -> Bad("LongInt", 0)
    [] r.st = "ok"    -> OkD(r.n, i + r.len,
                             IF r.len # VarIntLen(r.n) THEN {"nonminimal"} ELSE {})

-----------------------------------------------------------------------------
(* UTF-8 (RFC 3629): no overlong forms, no surrogates, nothing above       *)
(* U+10FFFF.  Stated without recursion, byte by byte: a byte is plain      *)
(* ASCII, a lead byte followed by the right continuation bytes, or a       *)
(* continuation byte that a lead byte at most three bytes back claims.     *)

Utf8Len(b) == IF b < 128 THEN 1
              ELSE IF b \in 194..223 THEN 2
              ELSE IF b \in 224..239 THEN 3
              ELSE IF b \in 240..244 THEN 4
              ELSE 0                       \* not a lead byte

Utf8Cont(b) == b \in 128..191

Utf8Second(b, c) ==                        \* range of the second byte
  CASE b = 224 -> c \in 160..191
    [] b = 237 -> c \in 128..159
    [] b = 240 -> c \in 144..191
    [] b = 244 -> c \in 128..143
    [] OTHER   -> Utf8Cont(c)

Utf8ByteOk(s, i, hi, k) ==
  LET b == s[k] n == Utf8Len(b) IN
  \/ b < 128
  \/ /\ n > 1
     /\ k + n - 1 <= hi
     /\ Utf8Second(b, s[k + 1])
     /\ \A m \in 2..(n - 1) : Utf8Cont(s[k + m])
  \/ /\ Utf8Cont(b)
     /\ \E back \in 1..3 :
          /\ k - back >= i
          /\ Utf8Len(s[k - back]) > back
          /\ \A m \in 1..(back - 1) : Utf8Cont(s[k - m])

Utf8(s, i, hi) == \A k \in i..hi : s[k] < 128 \/ Utf8ByteOk(s, i, hi, k)

HasByte(s, b) == \E k \in DOMAIN s : s[k] = b

-----------------------------------------------------------------------------
(* Length-prefixed data and text.                                          *)

GetData(s, i, hi) ==
  IF i + 1 > hi THEN Bad("Cut", 0)
  ELSE LET n == s[i] * 256 + s[i + 1] IN
       IF i + 1 + n > hi THEN Bad("Cut", 0)
       ELSE Ok(SubSeq(s, i + 2, i + 1 + n), i + 2 + n)

GetText(s, i, hi) ==
  IF i + 1 > hi THEN Bad("Cut", 0)
  ELSE LET n == s[i] * 256 + s[i + 1] IN
       IF i + 1 + n > hi THEN Bad("Cut", 0)
       ELSE IF ~Utf8(s, i + 2, i + 1 + n) THEN Bad("Utf8", 0)
       ELSE LET t == SubSeq(s, i + 2, i + 1 + n) IN
            OkD(t, i + 2 + n, IF HasByte(t, 0) THEN {"nul"} ELSE {})

PutData(b) == PutU16(Len(b)) \o b
=============================================================================
