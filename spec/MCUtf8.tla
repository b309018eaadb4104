-------------------------------- MODULE MCUtf8 ------------------------------
(***************************************************************************)
(* The definition of UTF-8 in Octets against the automaton of the Unicode  *)
(* standard (table 3-7), on all strings over bytes from every class.       *)
(***************************************************************************)
EXTENDS Octets, TLC
CONSTANTS MaxLen
Bytes == {65, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238,
          240, 241, 243, 244, 245, 255}
VARIABLES s, st
vars == <<s, st>>
\* how many continuation bytes are to come, and the range of the next one
Ok0 == [need |-> 0, lo |-> 128, hi |-> 191]
Rej == [need |-> 9, lo |-> 1, hi |-> 0]
Step(a, x) ==
  IF a = Rej THEN Rej
  ELSE IF a.need > 0 THEN IF x \in a.lo..a.hi THEN [need |-> a.need - 1, lo |-> 128, hi |-> 191] ELSE Rej
  ELSE CASE x <= 127 -> Ok0
         [] x \in 194..223 -> [need |-> 1, lo |-> 128, hi |-> 191]
         [] x = 224        -> [need |-> 2, lo |-> 160, hi |-> 191]
         [] x \in (225..236) \cup {238, 239} -> [need |-> 2, lo |-> 128, hi |-> 191]
         [] x = 237        -> [need |-> 2, lo |-> 128, hi |-> 159]
         [] x = 240        -> [need |-> 3, lo |-> 144, hi |-> 191]
         [] x \in 241..243 -> [need |-> 3, lo |-> 128, hi |-> 191]
         [] x = 244        -> [need |-> 3, lo |-> 128, hi |-> 143]
         [] OTHER -> Rej
Init == s = <<>> /\ st = Ok0
Next == Len(s) < MaxLen /\ \E x \in Bytes : s' = Append(s, x) /\ st' = Step(st, x)
Spec == Init /\ [][Next]_vars
Agree == Utf8(s, 1, Len(s)) <=> (st.need = 0)
=============================================================================
