------------------------------- MODULE Broker -------------------------------
(* The broker: connections, sessions, subscriptions, routing, acknowledgement and redelivery, wills, keep
   alive, takeover and the limit on active sessions, as operators on a state record

     conn   connection |-> [s, cid, ka, lo, hi, acked, stalled, blind, cnt, owe]
              s: "none" not used yet, "pre" no CONNECT yet, "up" connected, "closed"
              ka: the keep alive limit in ms, 0 for none; lo..hi: when the client last sent something
              acked: the CONNACK is out; cnt: messages routed to it in this round and not taken before it
     sess   client id |-> [owner, subs, sent, re, lanes, ep, will]
              owner: its connection, 0 if not connected
              subs:  set of [f, qos, nl, rap]
              sent:  unacknowledged messages in the order they were first sent, [id, m]
              re:    those of them still to be sent again on this connection
              lanes: batches routed and not sent yet, [k, ep, b]; k names the source, b is the bag of copies
     rq     connection |-> responses not seen yet
     timers wills to be published at lo..hi, or `now`, at once, [cid, will, lo, hi, n, now]
     n      a counter for names

   What a client observes is described by patterns; the users of this module decide how responses and
   deliveries leave (BrokerMC: any time, BrokerTrace: as recorded). *)
EXTENDS Topics, FiniteSets, TLC, SequencesExt

NoWill == [none |-> TRUE]
Max2(a, b) == IF a > b THEN a ELSE b

NewConn == [s |-> "none", cid |-> "", ka |-> 0, lo |-> 0, hi |-> 0, acked |-> FALSE, stalled |-> FALSE,
            blind |-> FALSE, cnt |-> 0, owe |-> FALSE]
NewSess == [owner |-> 0, subs |-> {}, sent |-> <<>>, re |-> <<>>, lanes |-> <<>>, ep |-> 0, will |-> NoWill]

Start(n) == [conn |-> [c \in 1..n |-> NewConn], sess |-> [x \in {} |-> NewSess],
             rq |-> [c \in 1..n |-> <<>>], timers |-> {}, n |-> 0]

Known(s, cid) == cid \in DOMAIN s.sess
Active(s) == {x \in DOMAIN s.sess : s.sess[x].owner # 0}
Up(s, c) == s.conn[c].s = "up"
Conns(s) == DOMAIN s.conn

SetConn(s, c, r) == [s EXCEPT !.conn[c] = r]
SetSess(s, cid, r) == [s EXCEPT !.sess = (cid :> r) @@ @]
Respond(s, c, r) == [s EXCEPT !.rq[c] = Append(@, r)]

----------------------------------------------------------------------------
(* Routing *)

(* What the session of `cid` gets for a message: one copy for each matching subscription. *)
CopyOf(m, sub) ==
  [topic |-> m.topic, pl |-> m.pl, props |-> m.props, alt |-> m.alt, ups |-> m.ups,
   qos |-> IF m.qos < sub.qos THEN m.qos ELSE sub.qos,
   ret |-> IF m.ret = 1 /\ sub.rap = 1 THEN 1 ELSE 0]
Wanted(s, cid, m, from) ==
  {sub \in s.sess[cid].subs : Matches(sub.f, m.topic) /\ ~(sub.nl = 1 /\ cid = from)}

(* A message as it is to be delivered. The topic alias belongs to the publisher's connection.
   DEVIATION: empty correlation data is lost, and the payload format 0 of a will, which means the same as none:
   `alt` are the properties without them. `ups` are the user properties in the order of the publisher.
   DEVIATION: the order of different names is lost. *)
Plain(p, will) ==
  LET props == SelectSeq(p.props, LAMBDA x : Len(x) < 3 \/ SubSeq(x, 1, 3) # "ta=")
  IN [topic |-> p.topic, pl |-> p.pl, qos |-> p.qos, ret |-> p.ret, props |-> props,
      ups |-> IF "ups" \in DOMAIN p THEN p.ups ELSE <<>>,
      alt |-> SelectSeq(props, LAMBDA x : x # "cd=" /\ ~(will /\ x = "pfi=0"))]

(* Routes message m of client `from` ("" for a will), source k. *)
RouteTo(s, cid, m, from, k) ==
  LET w == SetToSeq(Wanted(s, cid, m, from))
      se == s.sess[cid]
      b == TLCEval([i \in 1..Len(w) |-> CopyOf(m, w[i])])
  IN IF se.owner = 0 \/ w = <<>> THEN s
     ELSE [s EXCEPT !.sess[cid].lanes = Append(@, [k |-> k, ep |-> se.ep, b |-> b]),
                    !.conn[se.owner].cnt = @ + Len(b)]
Route(s, m, from, k) == FoldLeft(LAMBDA a, x : RouteTo(a, x, m, from, k), s, SetToSeq(DOMAIN s.sess))

PublishWill(s, w) ==
  [Route(s, Plain(w, TRUE), "", "w" \o ToString(s.n))
     EXCEPT !.n = @ + 1]

----------------------------------------------------------------------------
(* The end of a connection *)

(* Messages of a session that are kept when its connection ends: those with QoS 1 or 2. *)
KeepQos(b) == SelectSeq(b, LAMBDA m : m.qos > 0)
KeepLanes(lanes) ==
  SelectSeq([i \in 1..Len(lanes) |-> [lanes[i] EXCEPT !.b = KeepQos(@)]], LAMBDA x : x.b # <<>>)

Closed(s, c) == [s EXCEPT !.conn[c].s = "closed", !.rq[c] = <<>>]

(* The session stops being connected. *)
Detach(s, cid) ==
  [s EXCEPT !.sess[cid].owner = 0, !.sess[cid].re = <<>>, !.sess[cid].lanes = KeepLanes(@),
            !.sess[cid].will = NoWill]

(* The will of a connection that failed, in t0..t1. *)
WillDue(s, cid, w, t0, t1) ==
  IF w = NoWill THEN s
  ELSE IF w.delay = 0 THEN PublishWill(s, w)
  ELSE [s EXCEPT !.timers = @ \union {[cid |-> cid, will |-> w, lo |-> t0 + 1000 * w.delay,
                                       hi |-> t1 + 1000 * w.delay, n |-> s.n, now |-> FALSE]},
                 !.n = @ + 1]

(* Connection c ends; `ok` when its client said goodbye with reason success. A set of states: the session
   of a failed connection may or may not get its own will, for when it is resumed. *)
End(s, c, ok, t0, t1) ==
  IF ~Up(s, c) THEN {Closed(s, c)}
  ELSE LET cid == s.conn[c].cid
           w == s.sess[cid].will
           s0 == Closed(s, c)
           s1 == Detach(s0, cid)
       IN IF ok THEN {s1}
          ELSE {WillDue(s1, cid, w, t0, t1)}
               \union IF w = NoWill \/ w.delay > 0 THEN {} ELSE {Detach(WillDue(s0, cid, w, t0, t1), cid)}

----------------------------------------------------------------------------
(* CONNECT *)

Secs16(x) == IF x > 65535 THEN 65535 ELSE x       \* what fits the two bytes of a keep alive
KeepAlive(cfg, ka) == IF ka < cfg.minka THEN Secs16(cfg.minka) ELSE IF ka > cfg.maxka THEN Secs16(cfg.maxka) ELSE ka
AtCapacity(cfg, s) == cfg.maxact >= 0 /\ Cardinality(Active(s)) >= cfg.maxact
Owned(s, cid) == Known(s, cid) /\ s.sess[cid].owner # 0
Refused(cfg, s, cid) == AtCapacity(cfg, s) /\ ~Owned(s, cid)

WillOf(p) == IF "will" \in DOMAIN p THEN p.will ELSE NoWill

(* Of two session expiries; those of 2^31 s and more are counted down from -2 for the largest. *)
Longer(a, b) == IF a >= -1 THEN b >= -1 /\ a > b ELSE b >= -1 \/ a > b
ConnAckOf(cfg, p, cid, sp) ==
  LET eff == KeepAlive(cfg, p.ka)
  IN [t |-> "CONNACK", rc |-> 0, sp |-> sp,
      ska |-> IF eff # p.ka THEN eff ELSE -1,
      sei |-> IF Longer(p.sei, cfg.maxexp) THEN cfg.maxexp ELSE -1,
      aci |-> IF p.cid = "" THEN cid ELSE ""]

(* Connection c becomes the owner of session cid with the CONNECT p, in t0..t1. A connection that owned it
   ends: its will is published, a delayed one only if the session ends with it. *)
Attach(cfg, s, c, p, cid, t0, t1) ==
  LET old == IF Owned(s, cid) THEN s.sess[cid].owner ELSE 0
      w == IF old # 0 THEN s.sess[cid].will ELSE NoWill
      s1 == IF old # 0 THEN Detach(Closed(s, old), cid) ELSE s
      resume == p.clean = 0 /\ Known(s, cid)
      prev == IF resume THEN s1.sess[cid] ELSE NewSess
      ep == IF Known(s, cid) THEN s.sess[cid].ep + 1 ELSE 1
      se == [prev EXCEPT !.owner = c, !.re = prev.sent, !.ep = ep, !.will = WillOf(p)]
      \* a delayed will of the session is not due any more when it is resumed; one of a session that is
      \* discarded is nobody's
      tm == IF resume THEN {x \in s1.timers : x.cid # cid}
            ELSE {IF x.cid = cid THEN [x EXCEPT !.cid = ""] ELSE x : x \in s1.timers}
      s2 == SetSess([s1 EXCEPT !.timers = tm], cid, se)
      s3 == SetConn(s2, c, [s2.conn[c] EXCEPT !.s = "up", !.cid = cid, !.ka = 1500 * KeepAlive(cfg, p.ka),
                                              !.lo = t0, !.hi = t1, !.acked = FALSE, !.cnt = 0])
      s4 == Respond(s3, c, ConnAckOf(cfg, p, cid, IF resume THEN 1 ELSE 0))
      \* the older connection may publish it a little later
      soon == [cid |-> "", will |-> w, lo |-> t0, hi |-> t0, n |-> s4.n, now |-> TRUE]
  IN CASE w = NoWill \/ (resume /\ w.delay > 0) -> s4
       [] w # NoWill /\ w.delay = 0 -> [s4 EXCEPT !.timers = @ \union {soon}, !.n = @ + 1]
       [] OTHER -> WillDue(s4, "", w, t0, t1)

----------------------------------------------------------------------------
(* Packets of a connected client, except those that end the connection *)

Subscribe(s, c, p) ==
  LET cid == s.conn[c].cid
      Go(subs, x) == IF ValidFilter(x.f)
                     THEN {y \in subs : y.f # x.f} \union {[f |-> x.f, qos |-> x.qos, nl |-> x.nl, rap |-> x.rap]}
                     ELSE subs
      rcs == [i \in 1..Len(p.filters) |-> IF ValidFilter(p.filters[i].f) THEN p.filters[i].qos ELSE -1]
  IN Respond([s EXCEPT !.sess[cid].subs = FoldLeft(Go, @, p.filters)], c, [t |-> "SUBACK", id |-> p.id, rcs |-> rcs])

Unsubscribe(s, c, p) ==
  LET cid == s.conn[c].cid
      Go(a, f) == [subs |-> {y \in a.subs : y.f # f},
                   rcs |-> Append(a.rcs, IF \E y \in a.subs : y.f = f THEN 0 ELSE IF ValidFilter(f) THEN 17 ELSE -2)]
      r == FoldLeft(Go, [subs |-> s.sess[cid].subs, rcs |-> <<>>], p.filters)
  IN Respond([s EXCEPT !.sess[cid].subs = r.subs], c, [t |-> "UNSUBACK", id |-> p.id, rcs |-> r.rcs])

(* DEVIATION: the broker does not take part in the QoS 2 handshake, a QoS 2 publish has no answer. *)
Publish(s, c, p) ==
  LET s1 == Route(s, Plain(p, FALSE), s.conn[c].cid, "c" \o ToString(c))
  IN IF p.qos = 1 THEN Respond(s1, c, [t |-> "PUBACK", id |-> p.id]) ELSE s1

PubAck(s, c, p) ==
  LET cid == s.conn[c].cid
      Rest(q) == SelectSeq(q, LAMBDA x : x.id # p.id)
  IN [s EXCEPT !.sess[cid].sent = Rest(@), !.sess[cid].re = Rest(@)]

Serve(s, c, p) ==
  CASE p.t = "PINGREQ" -> Respond(s, c, [t |-> "PINGRESP"])
    [] p.t = "SUBSCRIBE" -> Subscribe(s, c, p)
    [] p.t = "UNSUBSCRIBE" -> Unsubscribe(s, c, p)
    [] p.t = "PUBLISH" -> Publish(s, c, p)
    [] p.t = "PUBACK" -> PubAck(s, c, p)
    [] OTHER -> s                             \* DEVIATION: PUBREC, PUBREL, PUBCOMP and AUTH are ignored

(* Packets that make the connection of a connected client fail. *)
Offends(p) ==
  \/ p.t \in {"GARBAGE", "FIN", "DROP", "CONNECT", "CONNACK", "SUBACK", "UNSUBACK", "PINGRESP"}
  \/ p.t = "PUBLISH" /\ ~ValidName(p.topic)
  \/ p.t = "DISCONNECT" /\ p.rc # 0
GoodBye(p) == p.t = "DISCONNECT" /\ p.rc = 0

----------------------------------------------------------------------------
(* Deliveries *)

(* Batch i of a session may be sent next: the first of each source, those left over from earlier
   connections first. *)
Ready(se, i) ==
  /\ se.re = <<>>
  /\ \A j \in 1..(i - 1) : se.lanes[j].k # se.lanes[i].k \/ se.lanes[j].ep # se.lanes[i].ep
  /\ \A j \in 1..Len(se.lanes) : se.lanes[j].ep >= se.lanes[i].ep
(* Takes copy x of batch i out. *)
Take(se, i, x) ==
  LET b == RemoveAt(se.lanes[i].b, x)
  IN [se EXCEPT !.lanes = IF b = <<>> THEN RemoveAt(@, i) ELSE [@ EXCEPT ![i].b = b]]
(* The packet ids in use. *)
InUse(se) == {se.sent[i].id : i \in 1..Len(se.sent)}
=============================================================================
