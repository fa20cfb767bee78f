------------------------------ MODULE Client ------------------------------
(* One MQTT 5 client session between an application and a broker: what the client does with the packets the
   broker sends, with those the application hands over, with time, and with the end of a connection.

   The state of a session is a record:
     ph     "off", "wait" (for the CONNACK), "up", "end"
     ok     how it ended: 1 as the application asked, 2 with an error
     cfg    the configuration (Cfg below); resumed sessions keep it
     ob     packets that go out next, in this order
     bye    ends when these are out
     q      publishes that wait: [m, old]; old ones have been sent on an earlier connection
     snd    unfinished publishes of the application in the order sent: [id, m, nx], nx is what comes next:
            "ack", "rec", "rel" (the application's PUBREL), "comp"
     rcv    unfinished publishes of the broker: [id, nx], nx in "ack", "rec", "rel", "comp"
     fw     packets for each consumer it has not taken yet
     smax   publishes that may be unfinished
     lo, hi when something was sent last, at the earliest and at the latest
     misled the application named a packet id that can not be used
     over   it has ended in an earlier round
     up     when the CONNACK came; t0 when the connection was started *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS CONSUMERS,    \* number of consumers, the first is the default one
          MAXID

Resp(t, id, rc) == [t |-> t, id |-> id, rc |-> rc, props |-> <<>>]
Refuses(p) == p.rc >= 128

None(seq, id) == \A i \in 1..Len(seq) : seq[i].id # id
At(seq, id) == CHOOSE i \in 1..Len(seq) : seq[i].id = id
Without(seq, id) == SelectSeq(seq, LAMBDA x : x.id # id)
NextOf(seq, id) == IF None(seq, id) THEN "none" ELSE seq[At(seq, id)].nx
Put(seq, id, nx) == IF None(seq, id) THEN Append(seq, [id |-> id, nx |-> nx]) ELSE [seq EXCEPT ![At(seq, id)].nx = nx]

Off == [ph |-> "off", ok |-> 0, cfg |-> <<>>, ob |-> <<>>, bye |-> FALSE, q |-> <<>>, snd |-> <<>>, rcv |-> <<>>,
        fw |-> [k \in 1..CONSUMERS |-> <<>>], smax |-> 65535, lo |-> 0, hi |-> 0, up |-> 0, t0 |-> 0, rd |-> 0, misled |-> FALSE, over |-> FALSE]

Fail(st) == [st EXCEPT !.ph = "end", !.ok = 2, !.ob = <<>>]

----------------------------------------------------------------------------
(* Publishes on their way to the broker *)

CanSend(st) == /\ st.ob = <<>> /\ ~st.bye /\ st.ph = "up" /\ st.q # <<>>
               /\ Head(st.q).m.qos = 0 \/ Len(st.snd) < st.smax
(* The application named an impossible packet id, or none when it has to. *)
BadId(st, m) ==
  m.qos > 0 /\ \/ m.id = 0
               \/ m.id > 0 /\ ~None(st.snd, m.id)
               \/ m.id < 0 /\ st.cfg.autoid = 0
IdOK(st, m, id) == IF m.qos = 0 THEN id = 0
                   ELSE IF m.id > 0 THEN id = m.id
                   ELSE id \in 1..MAXID /\ None(st.snd, id)
(* The first publish of the queue is sent, with packet id `id`. *)
SendPublish(st, id) ==
  LET m == [Head(st.q).m EXCEPT !.id = id]
  IN [st EXCEPT !.q = Tail(@),
                !.snd = IF m.qos = 0 THEN @
                        ELSE Append(@, [id |-> id, m |-> m, nx |-> IF m.qos = 1 THEN "ack" ELSE "rec"])]

----------------------------------------------------------------------------
(* Packets from the broker *)

Consumer(st, p) ==
  LET ks == {k \in 2..CONSUMERS : \E i \in 1..Len(st.cfg.filt[k - 1]) : st.cfg.filt[k - 1][i] = p.t}
  IN IF ks = {} THEN 1 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
Forward(st, p) == [st EXCEPT !.fw[Consumer(st, p)] = Append(@, p)]
Reply(st, p) == [st EXCEPT !.ob = Append(@, p)]
Auto(st) == st.cfg.auto = 1

RecvPublish(st, p) ==
  LET nx == NextOf(st.rcv, p.id)
      to == Forward(st, p)
  IN IF p.qos = 0 THEN to
     ELSE IF p.id = 0 \/ (nx = "none" /\ Len(st.rcv) >= st.cfg.rm) THEN Fail(st)
     ELSE IF p.qos = 1
     THEN IF Auto(st) THEN Reply([to EXCEPT !.rcv = Without(@, p.id)], Resp("PUBACK", p.id, 0))
          ELSE [to EXCEPT !.rcv = Put(@, p.id, "ack")]
     ELSE CASE nx = "rel" -> Reply(st, Resp("PUBREC", p.id, 0))
            [] nx = "comp" -> IF Auto(st) THEN Reply(st, Resp("PUBREC", p.id, 0)) ELSE st
            [] nx = "rec" /\ ~Auto(st) -> st
            [] OTHER -> IF Auto(st) THEN Reply([to EXCEPT !.rcv = Put(@, p.id, "rel")], Resp("PUBREC", p.id, 0))
                        ELSE [to EXCEPT !.rcv = Put(@, p.id, "rec")]

RecvPubrec(st, p) ==
  IF NextOf(st.snd, p.id) # "rec" THEN Fail(st)
  ELSE LET to == Forward(st, p)
           i == At(st.snd, p.id)
       IN IF Refuses(p) THEN [to EXCEPT !.snd = Without(@, p.id)]
          ELSE IF Auto(st) THEN Reply([to EXCEPT !.snd[i].nx = "comp"], Resp("PUBREL", p.id, 0))
          ELSE [to EXCEPT !.snd[i].nx = "rel"]

RecvPubrel(st, p) ==
  LET nx == NextOf(st.rcv, p.id)
      to == Forward(st, p)
  IN CASE nx = "rel" -> IF Auto(st) THEN Reply([to EXCEPT !.rcv = Without(@, p.id)], Resp("PUBCOMP", p.id, 0))
                        ELSE [to EXCEPT !.rcv = Put(@, p.id, "comp")]
       [] nx = "comp" /\ ~Auto(st) -> to
       [] nx = "none" -> IF Auto(st) THEN Reply(to, Resp("PUBCOMP", p.id, 146)) ELSE to
       [] OTHER -> Fail(st)

Settles(st, p, nx) == IF NextOf(st.snd, p.id) # nx THEN Fail(st) ELSE [Forward(st, p) EXCEPT !.snd = Without(@, p.id)]

Recv(st, p) ==
  CASE p.t = "PUBLISH" -> RecvPublish(st, p)
    [] p.t = "PUBACK" -> Settles(st, p, "ack")
    [] p.t = "PUBREC" -> RecvPubrec(st, p)
    [] p.t = "PUBREL" -> RecvPubrel(st, p)
    [] p.t = "PUBCOMP" -> Settles(st, p, "comp")
    [] p.t \in {"SUBACK", "UNSUBACK"} -> Forward(st, p)
    [] p.t = "PINGRESP" -> IF st.cfg.pong = 1 THEN Forward(st, p) ELSE st
    [] OTHER -> Fail(st)               \* DISCONNECT, the end of the stream, anything malformed

----------------------------------------------------------------------------
(* Packets from the application *)

(* Its acknowledgements go out and advance the exchange, when they are its business at all. *)
Answered(st, p) ==
  CASE p.t = "PUBACK" /\ NextOf(st.rcv, p.id) = "ack" -> [st EXCEPT !.rcv = Without(@, p.id)]
    [] p.t = "PUBREC" /\ NextOf(st.rcv, p.id) = "rec" ->
         [st EXCEPT !.rcv = IF Refuses(p) THEN Without(@, p.id) ELSE Put(@, p.id, "rel")]
    [] p.t = "PUBCOMP" /\ NextOf(st.rcv, p.id) = "comp" -> [st EXCEPT !.rcv = Without(@, p.id)]
    [] p.t = "PUBREL" /\ NextOf(st.snd, p.id) = "rel" -> [st EXCEPT !.snd[At(st.snd, p.id)].nx = "comp"]
    [] OTHER -> st
Ask(st, p) ==
  CASE p.t = "PUBLISH" -> [st EXCEPT !.q = Append(@, [m |-> p, old |-> FALSE])]
    [] p.t \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"} -> IF Auto(st) THEN st ELSE Reply(Answered(st, p), p)
    [] p.t = "DISCONNECT" -> [Reply(st, p) EXCEPT !.bye = TRUE]
    [] OTHER -> Reply(st, p)

----------------------------------------------------------------------------
(* Connections *)

(* c: the configuration of the client that is started; resume: with the state of st, which has ended. *)
Again(c) == "again" \in DOMAIN c              \* the same client after it could not reach the broker
Base(st, c) == IF Again(c) \/ (c.resume = 1 /\ st.ph = "end") THEN st ELSE [Off EXCEPT !.rd = st.rd]
Default == [cid |-> "*", ka |-> 60, sei |-> 600, rm |-> 65535, auto |-> 1, autoid |-> 1, pong |-> 0, kaon |-> 1, mps |-> 65536]
Cfg(st, c) ==
  LET b == Base(st, c)
      old == IF b.cfg # <<>> THEN b.cfg ELSE Default
  IN IF Again(c) THEN [b.cfg EXCEPT !.clean = IF "clean" \in DOMAIN c THEN c.clean ELSE 1, !.try = 0] ELSE
     [f \in {"cid", "sei", "rm", "auto", "autoid", "pong", "kaon", "mps"} |-> IF f \in DOMAIN c THEN c[f] ELSE old[f]]
       @@ [ka |-> IF "ka" \notin DOMAIN c THEN old.ka ELSE IF c.ka > 65535 THEN 65535 ELSE c.ka]
       @@ [mcw |-> IF "mcw" \in DOMAIN c THEN c.mcw ELSE 5000,
           clean |-> IF "clean" \in DOMAIN c THEN c.clean ELSE 1,
           user |-> IF "user" \in DOMAIN c THEN c.user ELSE "",
           pass |-> IF "pass" \in DOMAIN c THEN c.pass ELSE "",
           filt |-> IF "filt" \in DOMAIN c THEN c.filt ELSE [k \in 1..(CONSUMERS - 1) |-> <<>>],
           will |-> IF "will" \in DOMAIN c THEN <<c.will>> ELSE <<>>,
           try |-> IF "try" \in DOMAIN c THEN c.try ELSE 0]
(* A keep alive the application asks for is at least 30 s. *)
Buildable(c) == "ka" \in DOMAIN c => c.ka >= 30

Begin(st, c, now) ==
  LET b == Base(st, c)
      g == Cfg(st, c)
      connect == [t |-> "CONNECT", cid |-> g.cid, ka |-> g.ka, sei |-> g.sei, rm |-> IF g.rm = 65535 THEN -1 ELSE g.rm,
                  clean |-> g.clean, user |-> g.user, pass |-> g.pass, props |-> <<>>]
      old == FlattenSeq(b.fw)      \* taken by the consumers of this connection
      to == FoldLeft(Forward, [b EXCEPT !.cfg = g, !.fw = Off.fw], old)
  IN [b EXCEPT !.ph = "wait", !.fw = to.fw, !.ok = 0, !.cfg = g, !.bye = FALSE, !.misled = FALSE, !.over = FALSE, !.lo = now, !.hi = now, !.t0 = now,
               !.ob = <<IF g.will = <<>> THEN connect ELSE connect @@ [will |-> g.will[1]]>>]

(* The broker can not be reached. *)
Unreached(st, c) == LET b == Base(st, c) IN [b EXCEPT !.ph = "off", !.ok = 0, !.cfg = Cfg(st, c)]

(* The CONNACK: the exchanges of an earlier connection go on when the broker has the session. *)
Resend(st) ==
  LET Go(a, x) ==
        IF x.nx \in {"ack", "rec"}
        THEN LET m == [x.m EXCEPT !.dup = 1]
             IN IF a.n >= st.smax THEN [a EXCEPT !.x = Append(@, [m |-> m, old |-> TRUE])]
                ELSE [a EXCEPT !.n = @ + 1, !.o = Append(@, m), !.s = Append(@, [x EXCEPT !.m = m])]
        ELSE IF x.nx = "comp" \/ Auto(st)
        THEN [a EXCEPT !.n = @ + 1, !.o = Append(@, Resp("PUBREL", x.id, 0)), !.s = Append(@, [x EXCEPT !.nx = "comp"])]
        ELSE [a EXCEPT !.n = @ + 1, !.s = Append(@, x)]
      r == FoldLeft(Go, [n |-> 0, o |-> <<>>, s |-> <<>>, x |-> <<>>], st.snd)
  IN [st EXCEPT !.ob = r.o, !.snd = r.s, !.q = r.x \o @]
Connack(st, p, now) ==
  IF p.rc # 0 \/ (st.cfg.cid = "" /\ p.aci = "") THEN Fail(st)
  ELSE LET s1 == [st EXCEPT !.ph = "up", !.up = now,
                            !.smax = IF p.rm < 0 THEN 65535 ELSE p.rm,
                            !.cfg.cid = IF @ = "" THEN p.aci ELSE @,
                            !.cfg.ka = IF p.ska < 0 THEN @ ELSE p.ska,
                            !.cfg.sei = IF p.sei = -1 THEN @ ELSE p.sei]   \* see Longer in Broker for large ones
       IN Resend(IF p.sp = 1 THEN s1
                 ELSE [s1 EXCEPT !.snd = <<>>, !.rcv = <<>>, !.q = SelectSeq(@, LAMBDA x : ~x.old)])
Answer(st, p, now) == IF p.t = "CONNACK" THEN Connack(st, p, now) ELSE Fail(st)

(* When the next ping is due, if ever. *)
Pings(st) == st.ph = "up" /\ st.cfg.kaon = 1 /\ st.cfg.ka > 0
Max2(a, b) == IF a > b THEN a ELSE b
DueLo(st) == st.lo + 1000 * st.cfg.ka
DueHi(st) == Max2(st.hi + 1000 * st.cfg.ka, st.up)

----------------------------------------------------------------------------
(* What always holds *)
Ids(seq) == {seq[i].id : i \in 1..Len(seq)}
Safe(st) ==
  /\ Cardinality(Ids(st.snd)) = Len(st.snd) /\ Cardinality(Ids(st.rcv)) = Len(st.rcv)
  /\ \A i \in 1..Len(st.snd) : st.snd[i].id \in 1..MAXID
  /\ Len(st.rcv) <= st.cfg.rm
=============================================================================
