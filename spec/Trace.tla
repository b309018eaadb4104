-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded calls (one JSON record per line of the file named by    *)
(* the environment variable TRACE) against one property (PROP).            *)
(*                                                                         *)
(* Calls are independent of each other, so the behaviour is a tree whose   *)
(* nodes are the record numbers: record i is followed by records 2i and    *)
(* 2i+1.  That visits every record once and lets TLC's workers share them. *)
(* A record that the property rejects is printed; a run counts only if all *)
(* records were visited (postcondition).                                   *)
(***************************************************************************)
EXTENDS Judge, Builder, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N    == Len(Recs)

VARIABLE i
Init == i = 1
Next == i' \in {k \in {2 * i, 2 * i + 1} : k <= N}
Spec == Init /\ [][Next]_i

(* C27.  [k |-> "build", ver, ops, outs]: the calls ops were made on one    *)
(* draft; outs are the packets after each (up to a refusal).               *)
RECURSIVE Built(_, _, _, _)
Built(ver, draft, ops, outs) ==
  IF ops = <<>> THEN outs = <<>>
  ELSE IF ~Enabled(draft, Head(ops)) THEN FALSE     \* the harness strayed
  ELSE LET c == Head(ops)
           d == Apply(ver, draft, c)
       IN IF outs = <<>> THEN FALSE
          ELSE LET o == Head(outs) IN
            CASE d.t = "Refused" -> IsErr(o) /\ o.e = "EmptySubscription" /\ Len(outs) = 1
              [] c.op = "validate" -> /\ o.r = "is" /\ o.b = ValidateAnswer(draft, c)
                                      /\ Built(ver, d, Tail(ops), Tail(outs))
              [] OTHER -> Gives(o, d) /\ Built(ver, d, Tail(ops), Tail(outs))
C27build(r) == Built(r.ver, Nothing, r.ops, r.outs)

(* [k |-> "made", ver, ops, path, runs]: the same calls with an argument of *)
(* n bytes or elements where path leads; a run is a stretch of n for which  *)
(* the field came out n - d long, as it was given or not, among rest.       *)
C27made(r) ==
  LET want == Blank(Done(r.ver, Nothing, r.ops), r.path) IN
  /\ ~r.crashed
  /\ r.runs # <<>>
  /\ \A j \in DOMAIN r.runs : LET x == r.runs[j] IN x.d = 0 /\ x.same /\ x.rest = want

Verdicts(P, r) ==
  CASE r.k = "dec" ->
         (CASE P = "C02" -> C02dec(r) [] P = "C03" -> C03dec(r) [] P = "C04" -> C04dec(r)
            [] P = "C06" -> C06dec(r)
            [] P = "C11" -> r.ver = 4 => ReadsRight(r)
            [] P = "C12" -> r.ver = 5 => ReadsRight(r)
            [] P = "C13" -> r.ver = 4 => RejectsRight(r)
            [] P = "C14" -> r.ver = 5 => RejectsRight(r)
            [] P \in {"C05", "C15", "C19"} -> Agrees(r)
            [] P = "C25" -> C25dec(r)
            [] OTHER -> FALSE)
    [] r.k = "hdr" ->
         (CASE P = "C03" -> C03hdr(r) [] P = "C04" -> C04hdr(r) [] P = "C05" -> C05hdr(r)
            [] P = "C06" -> ~Crashed(r.out) [] OTHER -> FALSE)
    [] r.k = "enc" ->
         (CASE P = "C07" -> r.ver = 4 => RoundTrips(r)
            [] P = "C08" -> r.ver = 5 => RoundTrips(r)
            [] P = "C09" -> r.ver = 4 => WritesRight(r)
            [] P = "C10" -> r.ver = 5 => WritesRight(r)
            [] P = "C05" -> RoundTrips(r) /\ WritesRight(r)
            [] P = "C16" -> C16enc(r) [] P = "C17" -> C17enc(r) [] P = "C18" -> C18enc(r)
            [] P = "C19" -> C19enc(r)
            [] OTHER -> FALSE)
    [] r.k = "api" -> P = "C19" /\ C19api(r)
    [] r.k = "re" -> P = "C20" /\ C20re(r)
    [] r.k = "big" ->
         (CASE P = "C02" -> C02big(r) [] P = "C05" -> C05big(r) [] P = "C17" -> C17big(r) [] P = "C18" -> C18big(r) [] P = "C16" -> C16big(r)
            [] P = "C16" -> C16big(r)
            [] P \in {"C07", "C08"} -> RoundTripsBig(r)
            [] P \in {"C09", "C10"} -> C05big(r)
            [] OTHER -> FALSE)
    [] r.k = "wide" ->
         (CASE P = "C05" -> WideWritten(r) /\ WideBack(r) /\ WideRead(r)
            [] P = "C08" -> WideBack(r) [] P = "C10" -> WideWritten(r)
            [] P = "C12" -> WideRead(r) [] P = "C17" -> C17wide(r)
            [] P = "C02" -> r.ret.r = "ok" => r.left = r.behind
            [] P = "C06" -> ~Crashed(r.theirs) /\ ~Crashed(r.ret)
            [] OTHER -> FALSE)
    [] r.k = "lens" ->
         (CASE P \in {"C07", "C08"} -> LensBack(r) [] P \in {"C09", "C10", "C05"} -> LensSizes(r)
            [] P \in {"C11", "C12"} -> LensRead(r) [] P = "C17" -> C17lens(r)
            [] P = "C06" -> ~r.crashed [] OTHER -> FALSE)
    [] r.k = "asks" ->
         (CASE P = "C03" -> AsksRight(r, {0}) [] P = "C04" -> AsksRight(r, {1})
            [] P = "C02" -> AsksRight(r, {2, 8}) [] OTHER -> FALSE)
    [] r.k = "grow" ->
         (CASE P = "C01" -> GrowRight(r) /\ WholeRight(r) [] P = "C03" -> GrowRight(r) [] P = "C02" -> WholeRight(r) [] OTHER -> FALSE)
    [] r.k = "pads" ->
         (CASE P = "C02" -> PadsRemoved(r) [] P = "C03" -> PadsAnswered(r)
            [] P = "C06" -> PadsSurvived(r) [] OTHER -> FALSE)
    [] r.k = "chars" ->
         (CASE P \in {"C07", "C08"} -> CharsBack(r) [] P \in {"C09", "C10"} -> CharsWritten(r)
            [] P \in {"C11", "C12"} -> CharsRead(r) [] P = "C06" -> ~r.crashed [] OTHER -> FALSE)
    [] r.k = "vals" ->
         (CASE P \in {"C07", "C08"} -> ValsBack(r) [] P \in {"C09", "C10"} -> ValsWritten(r)
            [] P \in {"C11", "C12"} -> ValsRead(r) [] P = "C17" -> C17vals(r)
            [] P = "C06" -> ~r.crashed [] OTHER -> FALSE)
    [] r.k = "long" ->
         (CASE P = "C18" -> C18long(r) [] P \in {"C07", "C08"} -> RoundTripsLong(r)
            [] P \in {"C11", "C12"} -> (r.ver = (IF P = "C11" THEN 4 ELSE 5)) => ReadsLong(r)
            [] P = "C17" -> C17long(r) [] P = "C16" -> C16long(r)
            [] P = "C06" -> ~Crashed(r.theirs) [] OTHER -> FALSE)
    [] r.k = "after" ->
         (CASE P = "C16" -> C16after(r) [] P = "C17" -> C17after(r) [] P = "C18" -> C18after(r)
            [] OTHER -> FALSE)
    [] r.k = "refusal" -> P = "C18" /\ C18refusal(r)
    [] r.k = "tv" -> P = "C23" /\ C23tv(r)
    [] r.k = "uni" -> (CASE P = "C22" -> r.what = "m" => UniRight(r) [] P = "C23" -> r.what = "v" => UniRight(r) [] OTHER -> FALSE)
    [] r.k = "tm" -> (CASE P = "C22" -> C22tm(r) [] P = "C24" -> C24tm(r) [] OTHER -> FALSE)
    [] r.k = "build" -> P = "C27" /\ C27build(r)
    [] r.k = "made" -> P = "C27" /\ C27made(r)
    [] r.k = "pure"  -> P = "C26" /\ C26pure(r)
    [] r.k = "quiet" -> P = "C26" /\ C26quiet(r)
    [] OTHER -> FALSE

\* Did the record exercise the property, or is it true of it for want of an
\* antecedent?
Live(P, r) ==
  CASE r.k = "dec" ->
         (LET v == Verdict(r.s, r.max) IN
          CASE P \in {"C11", "C12"} -> v.v = "frame" /\ LET d == Decode(r.ver, Frm(r)) IN d.ok /\ d.d = {}
            [] P \in {"C13", "C14"} -> v.v = "frame" /\ LET d == Decode(r.ver, Frm(r)) IN ~d.ok /\ d.d = {}
            [] P \in {"C05", "C15", "C19"} -> v.v = "frame" /\ Decode(r.ver, Frm(r)).d = {}
            [] P = "C25" -> C25live(r)
            [] P = "C04" -> v.v = "toolarge"
            [] P = "C03" -> v.v = "more"
            [] OTHER -> TRUE)
    [] r.k = "enc" ->
         (CASE P \in {"C07", "C08", "C09", "C10", "C19", "C05"} -> WellFormed(r.ver, r.p)
            [] P = "C16" -> r.pre # <<>>
            [] P = "C17" -> r.fret.r = "ok"
            [] P = "C18" -> Unsendable(r.p)
            [] OTHER -> TRUE)
    [] r.k = "big" -> (CASE P = "C18" -> r.dec > MaxVarInt
                         [] P \in {"C07", "C08"} -> r.dec <= MaxVarInt [] OTHER -> TRUE)
    [] r.k = "long" -> (CASE P = "C18" -> r.n > 65535
                          [] P \in {"C07", "C08"} -> r.n <= 65535
                          [] P \in {"C11", "C12"} -> r.n <= 65535 /\ r.ver = (IF P = "C11" THEN 4 ELSE 5)
                          [] OTHER -> TRUE)
    [] r.k = "asks" -> CASE P = "C04" -> r.lim = "below" [] P = "C03" -> r.lim # "below" [] OTHER -> TRUE
    [] r.k = "uni" -> (P = "C22") = (r.what = "m")
    [] r.k = "after" -> (CASE P = "C18" -> Unsendable(r.p) [] OTHER -> TRUE)
    [] OTHER -> TRUE

Judged == IF Verdicts(Prop, Recs[i]) THEN TRUE ELSE PrintT(<<"REJECT", i>>)
Counted == IF Live(Prop, Recs[i]) THEN TRUE ELSE PrintT(<<"IDLE", i>>)

AllVisited == TLCGet("distinct") = N
=============================================================================
