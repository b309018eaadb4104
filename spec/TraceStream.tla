----------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Checks recorded sessions (one JSON record per line of the file TRACE)   *)
(* against the state machine Stream, for one property (PROP).              *)
(*                                                                         *)
(* A session is the sequence of events of one connection.  Each event      *)
(* takes the action of Stream that it names, with the logged bytes and     *)
(* outcomes; where the log is no step of that action, the properties it    *)
(* breaks are worked out (Blame).  A breach of PROP is printed and ends    *)
(* the session; after a breach of another property the state follows the   *)
(* log (the check of that other property reports it).                      *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils

Sess == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
NS   == Len(Sess)

VARIABLES sid,    \* which session
          l,      \* the next event of it
          synced  \* so far every event was a step of Stream
vars == <<svars, sid, l, synced>>

Ev    == Sess[sid].ev[l]
More  == l <= Len(Sess[sid].ev)
Whole == Sess[sid].whole

TInit == /\ sid \in 1..NS /\ l = 1 /\ synced = TRUE
         /\ SInit /\ ver = Sess[sid].ver /\ limit = Sess[sid].max

-----------------------------------------------------------------------------
(* The properties an event breaks. *)

BlameWrite ==
  (IF Crashed(Ev.ret) THEN {"C21"} ELSE {})
  \cup (IF ~Ev.kept THEN {"C16", "C21"} ELSE {})
  \cup (IF IsErr(Ev.ret) /\ (Ev.add # <<>> \/ ~Ev.kept) THEN {"C18"} ELSE {})
  \cup (IF Ev.ret.r = "ok" /\ Unsendable(Ev.p) THEN {"C18"} ELSE {})
  \cup (IF WellFormed(ver, Ev.p) /\ Ev.ret.r # "ok" THEN {"C21"} ELSE {})
  \cup (IF Ev.ret.r = "ok" /\ Ev.kept /\ Ev.ret.n # Len(Ev.add) THEN {"C17"} ELSE {})

Removed(n) == Ev.left = Len(buf) - n /\ Ev.tail

BlameRead ==
  (IF Crashed(Ev.out) THEN {"C06"}
   ELSE (IF Removed(IF V.v = "frame" THEN V.total ELSE 0) THEN {} ELSE {"C02"})
        \cup (IF AskRight(V, Ev.out) THEN {} ELSE {"C03"})
        \cup (IF LimitRight(V, Ev.out) THEN {} ELSE {"C04"}))
  \cup (IF Asks(Ev.out) THEN {}
        ELSE IF Len(got) < Len(Whole) /\ SameOut(Ev.out, Whole[Len(got) + 1]) THEN {}
        ELSE {"C01"})
  \cup (IF pure /\ ~Asks(Ev.out) /\ V.v # "toolarge"
           /\ ~(Len(got) < Len(written)
                /\ LET p == written[Len(got) + 1] IN Gives(Ev.out, p) \/ ~WellFormed(ver, p))
        THEN {"C21"} ELSE {})

BlameEnd ==
  (IF Len(got) # Len(Whole) \/ ~Ev.held THEN {"C01"} ELSE {})
  \cup (IF pure /\ V.v # "toolarge" /\ (Len(got) # Len(written) \/ buf # <<>>) THEN {"C21"} ELSE {})

Blame == CASE Ev.e = "write" -> BlameWrite
           [] Ev.e = "read"  -> BlameRead
           [] Ev.e = "end"   -> BlameEnd
           [] OTHER -> {}

-----------------------------------------------------------------------------
(* The action of Stream that an event is, if it is one. *)

Step ==
  \/ Ev.e = "write" /\ Ev.ret.r = "ok" /\ Ev.kept /\ Write(Ev.p, Ev.add)
  \/ Ev.e = "write" /\ IsErr(Ev.ret) /\ Ev.kept /\ Ev.add = <<>> /\ WriteRefused(Ev.p)
  \/ Ev.e = "inject"  /\ Inject(Ev.b)
  \/ Ev.e = "deliver" /\ Deliver(Ev.n)
  \/ Ev.e = "read" /\ ~Crashed(Ev.out) /\ Ev.tail
     /\ \/ Asks(Ev.out) /\ ReadMore /\ Ev.left = Len(buf)
        \/ IsErr(Ev.out) /\ ReadRefuse /\ Ev.left = Len(buf)
        \/ ~Asks(Ev.out) /\ ReadFrame(Ev.out) /\ Ev.left = Len(buf')
  \/ Ev.e = "end" /\ UNCHANGED svars

IsStep ==
  CASE Ev.e = "write" -> \/ Ev.ret.r = "ok" /\ Ev.kept /\ IsForm(ver, Ev.p, Ev.add)
                         \/ IsErr(Ev.ret) /\ Ev.kept /\ Ev.add = <<>> /\ Unsendable(Ev.p)
    [] Ev.e = "read" -> /\ ~Crashed(Ev.out) /\ Ev.tail
                        /\ CASE V.v = "more" -> Asks(Ev.out) /\ Ev.left = Len(buf)
                             [] V.v = "frame" -> ~Asks(Ev.out) /\ Ev.left = Len(buf) - V.total
                             [] OTHER -> IsErr(Ev.out) /\ ~stuck /\ Ev.left = Len(buf)
    [] OTHER -> TRUE

\* The state as the log has it, where the log is no step of Stream.
Follow ==
  /\ UNCHANGED <<env, pure, stuck>>
  /\ CASE Ev.e = "write" ->
            /\ wire' = IF Ev.kept THEN wire \o Ev.add ELSE Ev.all
            /\ sent' = sent \o Ev.add
            /\ written' = IF Ev.ret.r = "ok" THEN Append(written, Ev.p) ELSE written
            /\ UNCHANGED <<buf, got>>
       [] Ev.e = "read" ->
            /\ buf' = IF Ev.left <= Len(buf) THEN Rest(buf, Len(buf) - Ev.left) ELSE buf
            /\ got' = IF Asks(Ev.out) THEN got ELSE Append(got, Ev.out)
            /\ UNCHANGED <<wire, sent, written>>

TNext ==
  /\ More /\ Prop \notin Blame
  /\ l' = l + 1 /\ UNCHANGED sid
  /\ IF IsStep THEN Step /\ UNCHANGED synced ELSE Follow /\ synced' = FALSE

TSpec == TInit /\ [][TNext]_vars

Judged == (More /\ Prop \in Blame) => PrintT(<<"REJECT", sid, l>>)
\* The invariants of Stream hold in the validated states.
Sane   == synced => Conservation /\ HintSound
Done   == (~More) => PrintT(<<"DONE", sid, synced>>)
=============================================================================
