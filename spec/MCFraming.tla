------------------------------ MODULE MCFraming -----------------------------
(***************************************************************************)
(* Bytes arrive one at a time at a reader with a size limit.  TLC walks    *)
(* all strings over telling bytes and checks how the reader's verdict may  *)
(* develop.                                                                *)
(***************************************************************************)
EXTENDS Framing, TLC

CONSTANTS Bytes, MaxLen, Limits

VARIABLES b, max
vars == <<b, max>>
Init == b = <<>> /\ max \in Limits
Next == Len(b) < MaxLen /\ (\E x \in Bytes : b' = Append(b, x)) /\ UNCHANGED max
Spec == Init /\ [][Next]_vars

V0 == Verdict(b, max)
Last(s) == s[Len(s)]

\* A verdict other than "more" is final.
Final == [][ V0.v # "more" => Verdict(b', max) = V0 ]_vars
\* What is asked for is needed: fewer bytes than asked for at least (lo)
\* never make a difference, and no frame is complete before.
Needed == [][ (V0.v = "more" /\ V0.lo > 1) => Verdict(b', max).v = "more"
                                             /\ Verdict(b', max).lo = V0.lo - 1 ]_vars
\* The upper bound shrinks with every byte that arrives or the length turns
\* out to be longer; the frame never ends before what is asked for.
HintInside == V0.v = "more" =>
  /\ V0.lo >= 1 /\ V0.hi >= V0.lo
Exact == (V0.v = "more" /\ Len(b) >= 2 /\ VarIntAt(b, 2, Len(b)).st = "ok") => V0.lo = V0.hi
NotPast == [][ (V0.v = "more" /\ Verdict(b', max).v = "frame") => Len(b) + V0.hi <= Verdict(b', max).total ]_vars
\* C04
Refused == (Len(b) >= 2 /\ VarIntAt(b, 2, Len(b)).st = "ok") =>
             ((V0.v = "toolarge") <=> (Declared(b) > max))
\* C05: four bytes with the top bit set, and only they, are an error.
BadLen == (V0.v = "badlen") <=> (Len(b) >= 5 /\ \A k \in 2..5 : b[k] >= 128)
\* A frame is the type byte, the length field, the declared bytes.
Total == V0.v = "frame" =>
  LET n == VarIntAt(b, 2, Len(b)) IN V0.total = 1 + n.len + n.n /\ V0.total <= Len(b)

\* C05: writing and reading a length are inverse, and writing is shortest.
Edges == 0..300 \cup 16000..16500 \cup 2097000..2097300 \cup {MaxVarInt - k : k \in 0..300}
         \cup {2^k : k \in 0..27} \cup {2^k - 1 : k \in 1..28} \cup {2^k + 1 : k \in 0..27}
ASSUME \A n \in Edges :
  LET e == PutVarInt(n) r == VarIntAt(e, 1, Len(e)) IN
  r.st = "ok" /\ r.n = n /\ r.len = Len(e) /\ Len(e) = VarIntLen(n)
  /\ (Len(e) > 1 => e[Len(e)] # 0)
=============================================================================
