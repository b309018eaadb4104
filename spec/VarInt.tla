-------------------------------- MODULE VarInt -------------------------------
(***************************************************************************)
(* The variable byte integer of MQTT (3.1.1 chapter 2.2.3, 5 chapter       *)
(* 1.5.5), apart from everything else so that ProofVarInt can reason about *)
(* it symbolically.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxVarInt == 268435455

(* Variable byte integer: seven bits per byte, least significant first, at *)
(* most four bytes.                                                        *)

\* @type: (Int) => Int;
VarIntLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2
                ELSE IF n < 2097152 THEN 3 ELSE 4

\* @type: (Int) => Seq(Int);
PutVarInt(n) ==
  LET m1 == n \div 128
      m2 == m1 \div 128
      m3 == m2 \div 128
  IN
  IF n < 128 THEN << n >>
  ELSE IF n < 16384 THEN << 128 + (n % 128), m1 >>
  ELSE IF n < 2097152 THEN << 128 + (n % 128), 128 + (m1 % 128), m2 >>
  ELSE << 128 + (n % 128), 128 + (m1 % 128), 128 + (m2 % 128), m3 >>

(* st: "ok"    n and len are the number and the bytes it takes             *)
(*     "short" the window ends inside the integer; n is what the bytes     *)
(*             present contribute, len how many there are                  *)
(*     "long"  the fourth byte still announces a continuation              *)
\* @type: (Seq(Int), Int, Int) => { st: Str, n: Int, len: Int };
VarIntAt(s, i, hi) ==
  IF i > hi THEN [st |-> "short", n |-> 0, len |-> 0]
  ELSE IF s[i] < 128 THEN [st |-> "ok", n |-> s[i], len |-> 1]
  ELSE LET n1 == s[i] - 128 IN
  IF i + 1 > hi THEN [st |-> "short", n |-> n1, len |-> 1]
  ELSE IF s[i+1] < 128 THEN [st |-> "ok", n |-> n1 + s[i+1] * 128, len |-> 2]
  ELSE LET n2 == n1 + (s[i+1] - 128) * 128 IN
  IF i + 2 > hi THEN [st |-> "short", n |-> n2, len |-> 2]
  ELSE IF s[i+2] < 128 THEN [st |-> "ok", n |-> n2 + s[i+2] * 16384, len |-> 3]
  ELSE LET n3 == n2 + (s[i+2] - 128) * 16384 IN
  IF i + 3 > hi THEN [st |-> "short", n |-> n3, len |-> 3]
  ELSE IF s[i+3] < 128 THEN [st |-> "ok", n |-> n3 + s[i+3] * 2097152, len |-> 4]
  ELSE [st |-> "long", n |-> n3, len |-> 4]
=============================================================================
