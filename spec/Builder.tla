------------------------------- MODULE Builder ------------------------------
(***************************************************************************)
(* Building packets with the constructors and setters of the API.  The     *)
(* state is the draft: nothing, a packet, or a refusal.  Apply is the      *)
(* effect of one call; a call that does not concern the draft leaves it.   *)
(***************************************************************************)
EXTENDS Codec

Nothing == [t |-> "Nothing"]
Refused == [t |-> "Refused"]

PlainFilter(path, qos) ==
  [path |-> path, qos |-> qos, nl |-> FALSE, rap |-> FALSE, rh |-> "OnEverySubscribe"]

\* A filter made by SubscribeFilter::new followed by its setters, in order.
SetFilter(f, c) ==
  CASE c.op = "nolocal" -> [f EXCEPT !.nl = c.b]
    [] c.op = "preserve_retain" -> [f EXCEPT !.rap = c.b]
    [] c.op = "retain_forward_rule" -> [f EXCEPT !.rh = c.rule]
RECURSIVE SetFilters(_, _)
SetFilters(f, cs) == IF cs = <<>> THEN f ELSE SetFilters(SetFilter(f, Head(cs)), Tail(cs))
MakeFilter(a) == SetFilters(PlainFilter(a.path, a.qos), a.set)

Apply(ver, draft, c) ==
  CASE c.op = "connect" ->
         [t |-> "Connect", proto |-> LevelName[ver], ka |-> 10, id |-> c.id, clean |-> TRUE,
          will |-> <<>>, login |-> <<>>, props |-> <<>>]
    [] c.op = "set_login" -> [draft EXCEPT !.login = <<[u |-> c.u, p |-> c.p]>>]
    [] c.op = "set_will" ->
         [draft EXCEPT !.will = <<[topic |-> c.topic, msg |-> c.msg, qos |-> c.qos,
                                   retain |-> c.retain, props |-> <<>>]>>]
    [] c.op = "connack" -> [t |-> "ConnAck", sp |-> c.sp, code |-> c.code, props |-> <<>>]
    [] c.op \in {"publish", "publish_bytes"} ->
         [t |-> "Publish", dup |-> FALSE, qos |-> c.qos, retain |-> FALSE,
          topic |-> c.topic, pkid |-> 0, props |-> <<>>, payload |-> c.payload]
    [] c.op = "ack" -> [t |-> c.t, pkid |-> c.pkid, reason |-> "Success", props |-> <<>>]
    [] c.op = "subscribe" ->
         [t |-> "Subscribe", pkid |-> 0, filters |-> <<PlainFilter(c.path, c.qos)>>, props |-> <<>>]
    [] c.op = "subscribe_many" ->
         IF ver = 4 /\ c.filters = <<>> THEN Refused
         ELSE [t |-> "Subscribe", pkid |-> 0, props |-> <<>>,
               filters |-> [k \in DOMAIN c.filters |-> MakeFilter(c.filters[k])]]
    [] c.op = "subscribe_empty" ->
         [t |-> "Subscribe", pkid |-> 0, filters |-> <<>>, props |-> <<>>]
    [] c.op = "add" ->
         [draft EXCEPT !.filters = Append(@, PlainFilter(c.path, c.qos))]
    [] c.op = "suback" -> [t |-> "SubAck", pkid |-> c.pkid, codes |-> c.codes, props |-> <<>>]
    [] c.op = "unsuback" -> [t |-> "UnsubAck", pkid |-> c.pkid, codes |-> <<>>, props |-> <<>>]
    [] c.op = "unsubscribe" ->
         [t |-> "Unsubscribe", pkid |-> 0, topics |-> <<c.topic>>, props |-> <<>>]
    [] c.op = "disconnect" ->
         [t |-> "Disconnect", reason |-> "NormalDisconnection", props |-> <<>>]
    \* an empty property set, as the constructors of property sets make it
    [] c.op = "empty_props" -> [draft EXCEPT !.props = <<>>]
    [] c.op = "validate" -> draft
    \* a field of the packet is assigned
    [] c.op = "put" -> [draft EXCEPT ![c.f] = CASE c.f \in {"ka", "pkid"} -> c.n
                                                [] c.f = "id" -> c.x
                                                [] c.f = "props" -> c.l
                                                [] OTHER -> c.b]
    \* the setters of one of the filters
    [] c.op = "tune" -> [draft EXCEPT !.filters = [@ EXCEPT ![c.at] = SetFilters(@, c.set)]]

\* What a login check must answer.
ValidateAnswer(draft, c) == c.u = draft.login[1].u /\ c.p = draft.login[1].p

\* The fields that can be assigned before other calls are made.
PutFields(t) ==
  CASE t = "Connect" -> {"ka", "clean", "id", "props"}
    [] t \in {"Subscribe", "Unsubscribe"} -> {"pkid", "props"}
    [] t = "Publish" -> {"pkid", "dup", "retain"}
    [] OTHER -> {}

\* A draft in which the field at path is empty.
RECURSIVE Blank(_, _)
Blank(d, path) ==
  IF Len(path) = 1 THEN [d EXCEPT ![path[1]] = <<>>]
  ELSE [d EXCEPT ![path[1]] = Blank(d[path[1]], Tail(path))]
RECURSIVE Done(_, _, _)
Done(ver, draft, ops) == IF ops = <<>> THEN draft ELSE Done(ver, Apply(ver, draft, Head(ops)), Tail(ops))

\* Which calls can follow which draft.
Enabled(draft, c) ==
  CASE c.op \in {"set_login", "set_will"} -> draft.t = "Connect"
    [] c.op = "validate" -> draft.t = "Connect" /\ draft.login # <<>>
    [] c.op = "add" -> draft.t = "Subscribe"
    [] c.op = "put" -> c.f \in PutFields(draft.t)
    [] c.op = "tune" -> draft.t = "Subscribe" /\ c.at \in DOMAIN draft.filters
    [] c.op = "empty_props" -> draft.t \in {"ConnAck", "Disconnect"}
    [] OTHER -> draft.t = "Nothing"
=============================================================================
