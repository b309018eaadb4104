----------------------------- MODULE FramingRule -----------------------------
(***************************************************************************)
(* The decision of module Framing as a function of three numbers: how many *)
(* bytes there are, what the length field says so far, and the limit.      *)
(* Separate so that ProofFraming can reason about it symbolically.         *)
(***************************************************************************)
EXTENDS VarInt

(* have   bytes in the buffer                                              *)
(* f      what VarIntAt says of the bytes behind the first                 *)
\* @type: (Int, { st: Str, n: Int, len: Int }, Int) => { v: Str, lo: Int, hi: Int, n: Int };
Decide(have, f, max) ==
  IF have < 2 THEN [v |-> "more", lo |-> 1, hi |-> 2 - have, n |-> 0]
  ELSE IF f.st = "long" THEN [v |-> "badlen", lo |-> 0, hi |-> 0, n |-> 0]
    \* at least one byte of the length is missing, and at least as many
    \* body bytes as the length bytes at hand already announce
  ELSE IF f.st = "short" THEN [v |-> "more", lo |-> 1, hi |-> 1 + f.n, n |-> 0]
  ELSE LET total == 1 + f.len + f.n IN
       IF f.n > max THEN [v |-> "toolarge", lo |-> 0, hi |-> 0, n |-> f.n]
       ELSE IF have < total
            THEN [v |-> "more", lo |-> total - have, hi |-> total - have, n |-> 0]
       ELSE [v |-> "frame", lo |-> 0, hi |-> 0, n |-> total]
==============================================================================
