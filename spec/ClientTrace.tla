---------------------------- MODULE ClientTrace ----------------------------
(* Decides whether recorded traces of the real client are behaviours of Client. In a round the broker sends
   packets and the application hands over others, each in its order but interleaved in any way; the round
   records what the broker received, what the consumers of the application got, and what the client reports
   of itself. Every trace is an initial state; for each the number of rounds explained is reported. *)
EXTENDS Client, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
SLACK == 250                                   \* ms a timer may be late
STEP == 100                                    \* ms the clock advances at a time

VARIABLES tr, rd, s, ip, op, gp, left
vars == <<tr, rd, s, ip, op, gp, left>>

T == Traces[tr]
R == T.rounds[rd]
Ks == 1..CONSUMERS
Holds(p) == p = TRUE
Starts == "start" \in DOMAIN R
(* What is to be handled in this round: packets of the broker and of the application. *)
In == [b |-> (IF Starts THEN <<>> ELSE left.b) \o [i \in 1..Len(R.bin) |-> [p |-> R.bin[i], sz |-> R.bsz[i]]], a |-> left.a \o R.ain]

----------------------------------------------------------------------------
(* Explains what was observed as far as the state allows. *)

SameConnect(c, o) ==
  /\ o.t = "CONNECT"
  /\ [c EXCEPT !.cid = ""] = [o EXCEPT !.cid = "", !.sei = IF @ = -1 THEN 0 ELSE @]
  /\ IF c.cid = "*" THEN o.cid # "" ELSE c.cid = o.cid
SameReply(x, o) ==
  IF x.t = "PUBCOMP" /\ x.rc = 146 THEN o.t = "PUBCOMP" /\ o.id = x.id /\ o.rc \in {0, 146} ELSE x = o

InTime(st, at) == Pings(st) => at <= DueHi(st) + SLACK
Sent(st, at) == [st EXCEPT !.lo = at - STEP, !.hi = at]

(* a: [st, q (outputs explained), g (packets of each consumer explained), bad] *)
RECURSIVE Out(_)
Out(a) ==
  LET st == a.st
      more == a.q < Len(R.out)
      lost == ~more /\ R.rst = 1
      o == R.out[a.q + 1]
      at == R.at[a.q + 1]
  IN IF a.bad THEN a
     ELSE IF st.ob # <<>> THEN
       IF lost THEN Out([a EXCEPT !.st.ob = Tail(@)])
       ELSE IF ~more THEN [a EXCEPT !.bad = TRUE]
       ELSE IF /\ IF Head(st.ob).t = "CONNECT" THEN SameConnect(Head(st.ob), o) ELSE SameReply(Head(st.ob), o)
               /\ InTime(st, at)
       THEN Out([a EXCEPT !.q = @ + 1,
                          !.st = Sent([st EXCEPT !.ob = Tail(@), !.cfg.cid = IF @ = "*" /\ o.t = "CONNECT" THEN o.cid ELSE @], at)])
       ELSE [a EXCEPT !.bad = TRUE]
     ELSE IF st.bye THEN [a EXCEPT !.st.ph = "end", !.st.ok = 1, !.st.bye = FALSE]
     ELSE IF CanSend(st) THEN
       LET m == Head(st.q).m
       IN IF BadId(st, m) THEN [a EXCEPT !.st = [Fail([st EXCEPT !.q = Tail(@)]) EXCEPT !.misled = TRUE]]
          ELSE IF lost THEN Out([a EXCEPT !.st = SendPublish(st, IF m.qos = 0 THEN 0 ELSE IF m.id > 0 THEN m.id
                                                                  ELSE CHOOSE i \in 1..MAXID : IdOK(st, m, i))])
          ELSE IF ~more THEN [a EXCEPT !.bad = TRUE]
          ELSE IF o.t = "PUBLISH" /\ IdOK(st, m, o.id) /\ [m EXCEPT !.id = o.id] = o /\ InTime(st, at)
          THEN Out([a EXCEPT !.q = @ + 1, !.st = Sent(SendPublish(st, o.id), at)])
          ELSE [a EXCEPT !.bad = TRUE]
     ELSE a

Got(st, g) ==
  LET n(k) == LET q == R.got[k]
                  f == st.fw[k]
                  m == IF Len(q) - g[k] < Len(f) THEN Len(q) - g[k] ELSE Len(f)
              IN m
  IN IF \A k \in Ks : \A i \in 1..n(k) : R.got[k][g[k] + i] = st.fw[k][i]
     THEN {[st |-> [st EXCEPT !.fw = [k \in Ks |-> SubSeq(st.fw[k], n(k) + 1, Len(st.fw[k]))]],
            g |-> [k \in Ks |-> g[k] + n(k)]]}
     ELSE {}

Go(st, inp) ==
  LET a == Out([st |-> st, q |-> op, bad |-> FALSE])
      g == Got(a.st, gp)
  IN /\ ~a.bad /\ g # {}
     /\ \E x \in g : s' = x.st /\ gp' = x.g
     /\ op' = a.q
     /\ ip' = inp
     /\ UNCHANGED <<tr, rd, left>>

----------------------------------------------------------------------------
(* A consumer that does not take its packets, or is closed, stops the client from reading. *)
Held(st, k) == R.live[k] = 0 /\ Len(st.fw[k]) >= R.caps[k]
(* One packet may wait for a consumer with no room for it when the client ends. *)
Waits(st, k) == Len(st.fw[k]) = 1 /\ Len(R.got[k]) >= R.caps[k]
Gone(st, k) == R.closed[k] = 1 /\ st.fw[k] # <<>>

Ready == ~Starts \/ s.rd = rd

Cf == [R.start EXCEPT !.resume = @ * R.had]      \* no session to resume: it was given up before it ended
BeginClient ==
  /\ Starts /\ s.rd # rd
  /\ IF R.started = 0
     THEN /\ "refuse" \in DOMAIN R.start \/ ~Buildable(R.start)
          /\ s' = [(IF Buildable(R.start) THEN Unreached(s, Cf) ELSE Off) EXCEPT !.rd = rd]
          /\ UNCHANGED <<tr, rd, ip, op, gp, left>>
     ELSE /\ "refuse" \notin DOMAIN R.start /\ Buildable(R.start)
          /\ \E lost \in (IF s.misled THEN {FALSE, TRUE} ELSE {FALSE}) :
             Go([Begin(IF lost THEN [s EXCEPT !.fw = Off.fw] ELSE s, Cf, R.t0) EXCEPT !.rd = rd], ip)

FromBroker ==
  /\ Ready /\ s.ph \in {"wait", "up"} /\ ip.b < Len(In.b)
  /\ LET x == In.b[ip.b + 1]
         st == IF x.sz > s.cfg.mps THEN Fail(s)
               ELSE IF s.ph = "wait" THEN Answer(s, x.p, R.t1)
               ELSE Recv(s, x.p)
     IN Go(st, [ip EXCEPT !.b = @ + 1])

FromApp ==
  /\ Ready /\ s.ph = "up" /\ ip.a < Len(In.a)
  /\ Go(Ask(s, In.a[ip.a + 1]), [ip EXCEPT !.a = @ + 1])

Ping ==
  /\ Ready /\ Pings(s) /\ op < Len(R.out)
  /\ R.out[op + 1].t = "PINGREQ" /\ R.at[op + 1] + STEP >= DueLo(s)
  /\ Go([s EXCEPT !.ob = <<[t |-> "PINGREQ"]>>], ip)

(* No CONNACK in time. *)
Tries == s.cfg # <<>> /\ s.cfg.try > 0
Late == s.t0 + s.cfg.mcw
GiveUp ==
  /\ Ready /\ s.ph = "wait"
  /\ \/ R.done = 2 /\ R.endat + STEP >= Late /\ R.endat <= Late + SLACK
     \/ Tries /\ R.done # 2 /\ R.t1 + STEP >= Late
  /\ Go(Fail(s), ip)

(* A packet can not be handed over to a consumer that is gone. *)
NoConsumer ==
  /\ Ready /\ s.ph = "up" /\ Holds(\E k \in Ks : Gone(s, k))
  /\ Go(Fail(s), ip)

(* Packets of earlier rounds are taken. *)
Consume ==
  /\ Ready /\ s.ph \in {"up", "end"} /\ Holds(\E k \in Ks : s.fw[k] # <<>> /\ gp[k] < Len(R.got[k]))
  /\ Go(s, ip)

(* The broker has aborted the connection: that shows when the client reads, or when it writes. *)
Broken ==
  /\ Ready /\ s.ph = "up" /\ R.rst = 1
  /\ Go(Fail(s), ip)

(* With a limit for the start: given up, as the client is not connected by then. *)
TryFails ==
  /\ Ready /\ Tries /\ R.done = 3 /\ s.ph \in {"wait", "end"}
  /\ R.endat + STEP >= s.t0 + s.cfg.try /\ R.endat <= s.t0 + s.cfg.try + SLACK
  /\ Go([s EXCEPT !.ph = "tried", !.ok = 3], ip)
(* Not told yet. *)
Trying(from) == Tries /\ R.conn = -1 /\ R.done = 0 /\ R.t1 <= from + SLACK

----------------------------------------------------------------------------
(* The end of a round *)
Settled ==
  /\ Ready
  /\ op = Len(R.out) /\ R.rest = 0
  /\ R.twice = 0                             \* no client is started twice
  /\ \A k \in Ks : gp[k] = Len(R.got[k])
  /\ CASE s.ph = "off" -> R.done = 0 /\ R.conn \in {-1, 0}
       [] s.ph = "wait" ->
            /\ R.done = 0 /\ R.conn = (IF Tries THEN -1 ELSE 0) /\ R.eof = 0
            /\ R.t1 <= Late + SLACK
            /\ Tries => R.t1 <= s.t0 + s.cfg.try + SLACK
            /\ ip.b = Len(In.b)
       [] s.ph = "up" ->
            /\ R.done = 0 /\ (R.eof = 0 \/ R.rst = 1)
            /\ \/ R.conn = 1 /\ R.kams = 1000 * s.cfg.ka /\ R.seis = s.cfg.sei
               \/ Trying(s.up)
            /\ InTime(s, R.t1) \/ R.rst = 1
            /\ ip.a = Len(In.a)
            /\ ip.b = Len(In.b) \/ \E k \in Ks : Held(s, k)
            /\ \A k \in Ks : ~Gone(s, k)
            /\ \A k \in Ks : (R.live[k] = 1 \/ R.short[k] = 1) => s.fw[k] = <<>>
       [] s.ph = "end" ->
            /\ (R.done = s.ok /\ R.conn = 0) \/ Trying(s.t0 + s.cfg.try)
            /\ R.eof = 1 \/ R.rst = 1
            /\ \A k \in Ks : R.live[k] = 1 /\ R.closed[k] = 0 => s.fw[k] = <<>> \/ s.misled \/ s.over \/ Waits(s, k)
       [] s.ph = "tried" -> R.done = 3 /\ R.conn = 0 /\ (R.eof = 1 \/ R.rst = 1)
EndRound ==
  /\ Holds(Settled)
  /\ rd' = rd + 1
  /\ s' = [s EXCEPT !.over = s.ph = "end"]
  /\ ip' = [b |-> 0, a |-> 0] /\ op' = 0 /\ gp' = [k \in Ks |-> 0]
  /\ left' = [b |-> IF s.ph = "up" THEN SubSeq(In.b, ip.b + 1, Len(In.b)) ELSE <<>>,
              a |-> IF s.ph = "wait" THEN SubSeq(In.a, ip.a + 1, Len(In.a)) ELSE <<>>]
  /\ tr' = tr

(* Many publishes, each acknowledged at once; packet ids are recorded as ranges. *)
Bulk ==
  LET b == R.bulk
      used == Ids(s.snd)
  IN /\ s.ph = "up"
     /\ b.sent = b.n /\ b.acks = b.n /\ b.fwd = b.n /\ b.others = 0 /\ b.dups = 0
     /\ \A i \in 1..Len(b.ranges) :
          LET x == b.ranges[i] IN /\ 1 <= x[1] /\ x[2] <= 65535
                                  /\ \A u \in used : ~(x[1] <= u /\ u <= x[2])
     /\ R.done = 0 /\ R.conn = 1
     /\ rd' = rd + 1 /\ s' = Sent(s, R.t1)
     /\ UNCHANGED <<tr, ip, op, gp, left>>

----------------------------------------------------------------------------
Init ==
  /\ tr \in 1..Len(Traces)
  /\ rd = 1
  /\ s = Off
  /\ ip = [b |-> 0, a |-> 0] /\ op = 0 /\ gp = [k \in Ks |-> 0]
  /\ left = [b |-> <<>>, a |-> <<>>]

Step == IF "bulk" \in DOMAIN R THEN Bulk
        ELSE BeginClient \/ FromBroker \/ FromApp \/ Ping \/ GiveUp \/ TryFails \/ Broken \/ Consume \/ NoConsumer \/ EndRound
Next == rd <= Len(T.rounds) /\ Step

Progress == TLCSet(tr, IF rd > TLCGet(tr) THEN rd ELSE TLCGet(tr))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report ==
  /\ \A i \in 1..Len(Traces) :
       \/ TLCGet(i) > Len(Traces[i].rounds)
       \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(i)))
  /\ PrintT("CHECKED " \o ToString(Len(Traces)))

Spec == Init /\ [][Next]_vars
=============================================================================
