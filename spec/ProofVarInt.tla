----------------------------- MODULE ProofVarInt -----------------------------
(***************************************************************************)
(* The laws of the variable byte integer for every number and every        *)
(* sequence of bytes, decided by Apalache (SMT) instead of enumeration:    *)
(*   apalache-mc check --length=0 --inv=Laws ProofVarInt.tla               *)
(***************************************************************************)
EXTENDS VarInt

VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  c,
  \* @type: Int;
  d

Init == /\ n \in 0..MaxVarInt
        /\ a \in 0..255 /\ b \in 0..255 /\ c \in 0..255 /\ d \in 0..255
Next == UNCHANGED <<n, a, b, c, d>>

Enc == PutVarInt(n)

\* What is written is bytes, is read back, and is as long as VarIntLen says.
WriteRead ==
  LET v == VarIntAt(Enc, 1, Len(Enc)) IN
  /\ v.st = "ok" /\ v.n = n /\ v.len = Len(Enc) /\ Len(Enc) = VarIntLen(n)
  /\ \A k \in 1..4 : k <= Len(Enc) => (Enc[k] >= 0 /\ Enc[k] <= 255)
\* Nothing shorter says the same: the last byte is not a zero continuation.
Minimal == Len(Enc) > 1 => Enc[Len(Enc)] # 0
\* A part of it is never taken for the whole.
Parts == \A k \in 0..3 : k < Len(Enc) =>
  LET v == VarIntAt(Enc, 1, k) IN v.st = "short" /\ v.len = k /\ v.n <= n

\* Whatever four bytes: a number in range, or an error, and the error exactly
\* when all of them announce a continuation.
\* @type: () => Seq(Int);
S == <<a, b, c, d>>
Total ==
  LET v == VarIntAt(S, 1, 4) IN
  /\ v.st \in {"ok", "long"}
  /\ (v.st = "long") <=> (a >= 128 /\ b >= 128 /\ c >= 128 /\ d >= 128)
  /\ v.st = "ok" => v.n >= 0 /\ v.n <= MaxVarInt
\* Two spellings of one number differ in padding only; the short one is what
\* is written.
Canonical ==
  LET v == VarIntAt(S, 1, 4) IN
  v.st = "ok" => LET e == PutVarInt(v.n) IN
    /\ Len(e) <= v.len
    /\ Len(e) = v.len => \A k \in 1..4 : k <= v.len => e[k] = S[k]
    /\ Len(e) < v.len => S[v.len] = 0

Laws == WriteRead /\ Minimal /\ Parts /\ Total /\ Canonical
==============================================================================
