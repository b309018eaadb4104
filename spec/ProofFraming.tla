---------------------------- MODULE ProofFraming -----------------------------
(***************************************************************************)
(* The laws of framing for buffers of any length, any declared length and  *)
(* any limit, decided by Apalache (SMT).  A buffer is its first length     *)
(* bytes a, b, c, d (as many of them as there are) and how many bytes it   *)
(* holds; `more` bytes arrive behind it.                                   *)
(*   apalache-mc check --length=0 --inv=Laws ProofFraming.tla              *)
(***************************************************************************)
EXTENDS FramingRule

VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  c,
  \* @type: Int;
  d,
  \* @type: Int;
  have,
  \* @type: Int;
  more,
  \* @type: Int;
  max

Init == /\ a \in 0..255 /\ b \in 0..255 /\ c \in 0..255 /\ d \in 0..255
        /\ have \in Nat /\ more \in Nat /\ max \in Nat
Next == UNCHANGED <<a, b, c, d, have, more, max>>

\* @type: () => Seq(Int);
S == <<a, b, c, d>>
\* The length field of a buffer with h bytes.
\* @type: (Int) => { st: Str, n: Int, len: Int };
Field(h) == LET k == IF h - 1 > 4 THEN 4 ELSE h - 1 IN
            IF k < 1 THEN [st |-> "short", n |-> 0, len |-> 0] ELSE VarIntAt(S, 1, k)
V(h) == Decide(h, Field(h), max)

V0 == V(have)
V1 == V(have + more)
F4 == VarIntAt(S, 1, 4)

\* One of four verdicts, numbers in range.
Range == /\ V0.v \in {"more", "badlen", "toolarge", "frame"}
         /\ V0.v = "more" => V0.lo >= 1 /\ V0.lo <= V0.hi
         /\ V0.v = "frame" => V0.n >= 2 /\ V0.n <= have
         /\ V0.v = "toolarge" => V0.n > max /\ V0.n <= MaxVarInt
\* Whatever arrives later changes no verdict but "more" (C01, C02).
Final == V0.v # "more" => V1 = V0
\* What is asked for is really missing: less never completes the frame, and a
\* reader that waits for `lo` bytes waits neither too short nor for ever (C03).
Needed == (V0.v = "more" /\ more < V0.lo) => V1.v = "more"
Inside == (V0.v = "more" /\ V1.v = "frame") => have + V0.hi <= V1.n
Exact == (V0.v = "more" /\ have >= 2 /\ Field(have).st = "ok") =>
           /\ V0.lo = V0.hi
           /\ more >= V0.lo <=> V1.v = "frame"
\* With four length bytes at hand the answer is never about the header (C03, C05).
Decided == have >= 5 => (V0.v = "more" => F4.st = "ok" /\ V0.lo = 1 + F4.len + F4.n - have)
\* The limit is applied as soon as the length is complete, and only to the
\* declared length (C04).
Limit == (have >= 2 /\ Field(have).st = "ok") => (V0.v = "toolarge" <=> Field(have).n > max)
LimitOnly == V0.v = "frame" => F4.st = "ok" /\ F4.n <= max
\* An over-long length field is known with its fourth byte, and only then (C05).
BadLen == V0.v = "badlen" <=> have >= 5 /\ a >= 128 /\ b >= 128 /\ c >= 128 /\ d >= 128
\* A whole frame is one type byte, the length field, the declared bytes (C02).
Whole == V0.v = "frame" => V0.n = 1 + F4.len + F4.n

Laws == Range /\ Final /\ Needed /\ Inside /\ Exact /\ Decided /\ Limit
        /\ LimitOnly /\ BadLen /\ Whole
==============================================================================
