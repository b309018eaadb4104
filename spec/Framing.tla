------------------------------- MODULE Framing ------------------------------
(***************************************************************************)
(* How a byte stream is cut into frames: one type byte, a variable byte    *)
(* integer n of at most four bytes, n bytes of body.  A reader looks at    *)
(* the bytes it has and must be able to say which of these holds:          *)
(*                                                                         *)
(*   more      the frame is not complete; lo..hi is what may be asked for  *)
(*             (exactly what is missing once the length is known)          *)
(*   badlen    the fourth length byte still announces a continuation       *)
(*   toolarge  the declared length exceeds the reader's limit              *)
(*   frame     the first `total` bytes are a frame                         *)
(***************************************************************************)
EXTENDS Octets, FramingRule

Verdict(b, max) ==
  LET r == Decide(Len(b), IF Len(b) < 2 THEN [st |-> "short", n |-> 0, len |-> 0]
                          ELSE VarIntAt(b, 2, Len(b)), max)
  IN CASE r.v = "more"     -> [v |-> r.v, lo |-> r.lo, hi |-> r.hi]
       [] r.v = "badlen"   -> [v |-> r.v]
       [] r.v = "toolarge" -> [v |-> r.v, n |-> r.n]
       [] r.v = "frame"    -> [v |-> r.v, total |-> r.n]

\* The declared length, when the length field is complete.
Declared(b) == VarIntAt(b, 2, Len(b)).n

Prefix(b, n) == SubSeq(b, 1, n)
Rest(b, n)   == SubSeq(b, n + 1, Len(b))
=============================================================================
