---------------------------- MODULE BrokerTrace ----------------------------
(* Decides whether recorded traces of the real broker are behaviours of Broker. A trace is a sequence of
   rounds; in a round clients send packets, each in its order but interleaved in any way, and the round
   records what each client received until the broker had nothing more to do. Every trace is an initial
   state; for each the number of rounds explained is reported. *)
EXTENDS Broker, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
FAR == 1000000000

VARIABLES tr, rd, s, ip, op, left
vars == <<tr, rd, s, ip, op, left>>

T == Traces[tr]
R == T.rounds[rd]
N == T.n
Cs == 1..N
SLACK == 150 + (IF "late" \in DOMAIN R THEN R.late ELSE 100)       \* ms a timer may be late
Cfg == [T.cfg EXCEPT !.maxexp = R.maxexp]
Obs(c) == R.out[c]
(* Evaluates p as a state predicate; TLC would follow every disjunct of an action. *)
Holds(p) == p = TRUE
(* The packets connection c sends in this round, after those it sent earlier that were not served. *)
Inp(c) == left[c] \o SelectSeq(R.ops, LAMBDA x : x.c = c)

----------------------------------------------------------------------------
(* Matching what was observed *)

(* Without the deviations of Broker that are known findings. *)
Strict == "STRICT" \in DOMAIN IOEnv
SameMsg(o, m) ==
  /\ o.topic = m.topic /\ o.pl = m.pl /\ o.qos = m.qos /\ o.ret = m.ret
  /\ IF Strict THEN o.props = m.props /\ o.ups = m.ups ELSE o.props \in {m.props, m.alt}
IsDeliver(o) == o.t = "PUBLISH"

RespOK(r, o) ==
  /\ r.t = o.t
  /\ CASE r.t = "CONNACK" ->
            /\ r.rc = o.rc /\ r.sp = o.sp
            /\ r.rc = 0 => r.ska = o.ska /\ r.sei = o.sei /\ r.aci = o.aci
       [] r.t = "SUBACK" ->
            /\ r.id = o.id /\ Len(r.rcs) = Len(o.rcs)
            /\ \A i \in 1..Len(r.rcs) : IF r.rcs[i] = -1 THEN o.rcs[i] >= 128 ELSE o.rcs[i] = r.rcs[i]
       [] r.t = "UNSUBACK" ->
            /\ r.id = o.id /\ Len(r.rcs) = Len(o.rcs)
            /\ \A i \in 1..Len(r.rcs) : IF r.rcs[i] = -2 THEN o.rcs[i] = 17 \/ o.rcs[i] >= 128 ELSE o.rcs[i] = r.rcs[i]
       [] r.t = "PUBACK" -> r.id = o.id /\ o.rc \in {0, 16}
       [] OTHER -> TRUE

(* One packet o observed at connection c, as {new state} or {} when the state does not explain it yet. *)
TakeDelivery(st, c, o) ==
  LET cid == st.conn[c].cid
      se == st.sess[cid]
  IN IF ~Up(st, c) \/ ~st.conn[c].acked THEN {}
     ELSE IF se.re # <<>> THEN
       \* sent again: same packet id, DUP
       LET h == Head(se.re)
       IN IF SameMsg(o, h.m) /\ o.id = h.id /\ o.dup = 1
          THEN {[st EXCEPT !.sess[cid].re = Tail(@)]} ELSE {}
     ELSE
       LET cand == {<<i, x>> \in UNION {{<<i, x>> : x \in 1..Len(se.lanes[i].b)} : i \in 1..Len(se.lanes)} :
                      SameMsg(o, se.lanes[i].b[x]) /\ Ready(se, i)}
       IN IF cand = {} THEN {}
          ELSE LET a == CHOOSE a \in cand : \A b \in cand : a[1] <= b[1] /\ (a[1] = b[1] => a[2] <= b[2])
                   old == se.lanes[a[1]].ep # se.ep     \* routed on an earlier connection, maybe lost on its way
                   s2 == Take(se, a[1], a[2])
               IN IF /\ (o.dup = 0 \/ old)
                     /\ IF o.qos = 0 THEN o.id = 0 ELSE o.id \in 1..65535 /\ o.id \notin InUse(se)
                  THEN {SetSess(st, cid, IF o.qos = 0 THEN s2
                                         ELSE [s2 EXCEPT !.sent = Append(@, [id |-> o.id, m |-> se.lanes[a[1]].b[a[2]]])])}
                  ELSE {}
TakeResponse(st, c, o) ==
  IF st.rq[c] # <<>> /\ RespOK(Head(st.rq[c]), o)
  THEN {[st EXCEPT !.rq[c] = Tail(@), !.conn[c].acked = @ \/ o.t = "CONNACK"]} ELSE {}

(* Explains as much of what c observed as the state allows; q is the number of packets explained. *)
DrainC(st, q0, c) ==
  LET Go(a, o) ==
        IF a.stop THEN a
        ELSE LET r == IF IsDeliver(o) THEN TakeDelivery(a.st, c, o) ELSE TakeResponse(a.st, c, o)
             IN IF r = {} THEN [a EXCEPT !.stop = TRUE]
                ELSE [st |-> CHOOSE x \in r : TRUE, q |-> a.q + 1, stop |-> FALSE]
  IN FoldLeft(Go, [st |-> st, q |-> q0, stop |-> FALSE], SubSeq(Obs(c), q0 + 1, Len(Obs(c))))
Drain(st, qs) ==
  LET Go(a, c) == IF a.qs[c] >= Len(Obs(c)) THEN a
                  ELSE LET d == DrainC(a.st, a.qs[c], c) IN [st |-> d.st, qs |-> [a.qs EXCEPT ![c] = d.q]]
      r == FoldLeft(Go, [st |-> st, qs |-> qs], [c \in Cs |-> c])
  IN [st |-> r.st, q |-> r.qs]

----------------------------------------------------------------------------
(* Ends of connections *)

(* What may be left unexplained at c when it ends for the given cause. *)
LeftOK(c, q, cause) ==
  LET rest == SubSeq(Obs(c), q + 1, Len(Obs(c)))
      quiet == rest = <<>>
      told == Len(rest) = 1 /\ rest[1].t = "DISCONNECT"
  IN CASE cause = "drop" -> quiet
       [] cause = "bye" -> quiet
       [] cause = "takeover" -> (told /\ rest[1].rc = 142) \/ (quiet /\ s.conn[c].cnt >= Cfg.chan)
       [] OTHER -> quiet \/ (told /\ rest[1].rc >= 128)

(* Connection c ends now, as recorded. *)
CanEnd(c, q, cause) ==
  \/ s.conn[c].stalled
  \/ /\ LeftOK(c, q, cause)
     /\ (cause = "drop" \/ R.eof[c] = 1)
     /\ R.part[c] = 1 => cause \in {"takeover", "kick"}

(* A connection that does not read may have ended unnoticed when its queue was full, with what was
   published since never routed to it. *)
Cuts(st, c) ==
  IF ~st.conn[c].stalled THEN {st}
  ELSE LET cid == st.conn[c].cid
           n == Len(st.sess[cid].lanes)
       IN {[st EXCEPT !.sess[cid].lanes = SubSeq(@, 1, i)] :
             i \in {n} \union {j \in 0..n : j > Cfg.chan}}

Finish(st, qs) == LET d == Drain(st, qs) IN s' = d.st /\ op' = d.q
AllOf(qs, c) == [qs EXCEPT ![c] = Len(Obs(c))]

(* A client that vanishes in this round may not see the answers it would get, and the last packets it sent
   may be lost with it. *)
Dropped(c) == \E i \in 1..Len(Inp(c)) : Inp(c)[i].p.t = "DROP"
Lose(c) ==
  /\ Holds(Dropped(c) /\ ip[c] + 1 < Len(Inp(c)) /\ s.conn[c].s # "closed")
  /\ ip' = [ip EXCEPT ![c] = Len(Inp(c)) - 1]
  /\ UNCHANGED <<tr, rd, s, op, left>>

(* c's client has sent packet p. *)
Handle(c) ==
  LET inp == Inp(c)
      p == inp[ip[c] + 1].p
      st == [s EXCEPT !.conn[c].lo = R.t0, !.conn[c].hi = R.tb]
  IN /\ Holds(s.conn[c].stalled \/ s.rq[c] = <<>> \/ Dropped(c))
     /\ s.conn[c].s # "closed"
     /\ UNCHANGED <<tr, rd, left>>
     /\ ip' = [ip EXCEPT ![c] = @ + 1]
     /\ CASE p.t = "STALL" -> s' = [s EXCEPT !.conn[c].stalled = TRUE] /\ op' = op
          [] p.t = "UNSTALL" -> Finish([s EXCEPT !.conn[c].stalled = FALSE], op)
          [] Up(s, c) /\ (Offends(p) \/ GoodBye(p)) ->
               LET cause == IF p.t = "DROP" THEN "drop" ELSE IF GoodBye(p) THEN "bye" ELSE "error"
               IN Holds(CanEnd(c, op[c], cause)) /\ \E x \in Cuts(s, c) : \E st2 \in End(x, c, GoodBye(p), R.t0, R.t1) : Finish(st2, AllOf(op, c))
          [] Up(s, c) /\ ~(Offends(p) \/ GoodBye(p)) -> Finish(Serve(st, c, p), op)
          [] ~Up(s, c) /\ p.t = "CONNECT" ->
               LET cas == {i \in (op[c] + 1)..Len(Obs(c)) : Obs(c)[i].t = "CONNACK"}
                   ca == Obs(c)[CHOOSE i \in cas : \A j \in cas : i <= j]
                   cid == IF p.cid = "" THEN ca.aci ELSE p.cid
               IN /\ cas # {}
                  /\ IF Refused(Cfg, s, cid)
                     THEN /\ ca.rc = 151 /\ ca.sp = 0 /\ op[c] + 1 = Len(Obs(c)) /\ R.eof[c] = 1
                          /\ Finish(Closed(s, c), AllOf(op, c))
                     ELSE /\ p.cid = "" => cid # "" /\ ~Known(s, cid)
                          /\ IF Owned(s, cid)
                             THEN LET o == s.sess[cid].owner
                                  IN /\ Holds(s.conn[o].s = "closed" \/ CanEnd(o, op[o], "takeover"))
                                     /\ \E st2 \in Cuts(st, o) :
                                          Finish([Attach(Cfg, st2, c, p, cid, R.t0, R.t1)
                                                    EXCEPT !.conn[o].blind = s.conn[o].stalled],
                                                 IF s.conn[o].stalled THEN op ELSE AllOf(op, o))
                             ELSE Finish(Attach(Cfg, st, c, p, cid, R.t0, R.t1), op)
          [] ~Up(s, c) /\ p.t = "PINGREQ" -> Finish(Respond(s, c, [t |-> "PINGRESP"]), op)
          [] OTHER ->
               LET cause == IF p.t = "DROP" THEN "drop" ELSE "error"
               IN Holds(CanEnd(c, op[c], cause)) /\ Finish(Closed(s, c), AllOf(op, c))

(* The first half of a takeover, when no time passes after it: the older connection is told, the new one
   waits. *)
Displace(c) ==
  LET inp == Inp(c)
      p == inp[ip[c] + 1].p
      o == s.sess[p.cid].owner
  IN /\ Holds(/\ R.open = 1 /\ ip[c] < Len(inp) /\ ~Up(s, c) /\ s.conn[c].s # "closed"
              /\ p.t = "CONNECT" /\ p.cid # "" /\ Owned(s, p.cid)
              /\ Up(s, o) /\ ~s.conn[o].stalled
              /\ LeftOK(o, op[o], "takeover"))
     /\ Finish([Closed(s, o) EXCEPT !.conn[o].owe = (R.eof[o] = 0)], AllOf(op, o))
     /\ UNCHANGED <<tr, rd, ip, left>>

----------------------------------------------------------------------------
(* Time *)

(* c was asked for a sign of life at the end of the round. *)
Pinged(c) == R.ping[c] = 1
Until(c) == IF Pinged(c) THEN R.tb ELSE R.t1
ExpLo(c) == IF Up(s, c) /\ s.conn[c].ka > 0 THEN s.conn[c].lo + s.conn[c].ka ELSE FAR
ExpHi(c) == s.conn[c].hi + s.conn[c].ka
MustExpire(c) == ExpLo(c) # FAR /\ ExpHi(c) + SLACK <= Until(c)
MayExpire(c) == ExpLo(c) <= R.t1
MustFire(x) == x.now \/ x.hi + SLACK <= R.t1
MayFire(x) == x.lo <= R.t1
(* Nothing that had to happen well before time t is missing. *)
InOrder(t) ==
  /\ \A c \in Cs : MustExpire(c) => ExpHi(c) + SLACK > t
  /\ \A x \in s.timers : MustFire(x) => x.now \/ x.hi + SLACK > t

Expire(c) ==
  /\ MayExpire(c) /\ Holds(InOrder(ExpLo(c)))
  /\ Holds(CanEnd(c, op[c], "expire"))
  /\ LET lo == Max2(R.t0, ExpLo(c))
         hi == IF ExpHi(c) + SLACK < R.t1 THEN ExpHi(c) + SLACK ELSE R.t1
     IN \E st2 \in End(s, c, FALSE, lo, Max2(lo, hi)) : Finish(st2, AllOf(op, c))
  /\ UNCHANGED <<tr, rd, ip, left>>

Fire(x) ==
  /\ MayFire(x) /\ Holds(InOrder(x.lo))
  /\ Finish(PublishWill([s EXCEPT !.timers = @ \ {x}], x.will), op)
  /\ UNCHANGED <<tr, rd, ip, left>>

(* More messages were waiting for c than its queue holds. *)
Overflow(c) == s.conn[c].cnt > Cfg.chan
Kick(c) ==
  /\ Up(s, c) /\ Overflow(c)
  /\ R.eof[c] = 1
  /\ Holds(CanEnd(c, op[c], "kick"))
  /\ UNCHANGED <<tr, rd, ip, left>>
  /\ \E st2 \in End(s, c, FALSE, R.t0, R.t1) : Finish(st2, AllOf(op, c))
(* It was not reading: only the first `cut` messages that are left were routed while it was connected. *)
KickLate(c) ==
  /\ Up(s, c) /\ Overflow(c)
  /\ R.eof[c] = 1
  /\ \E i \in 1..Len(R.ops) : R.ops[i].c = c /\ R.ops[i].p.t = "UNSTALL"
  /\ Holds(CanEnd(c, op[c], "kick"))
  /\ UNCHANGED <<tr, rd, ip, left>>
  /\ LET cid == s.conn[c].cid
         n == Len(s.sess[cid].lanes)
     IN \E i \in (Cfg.chan + 1)..n :
          \E st2 \in End([s EXCEPT !.sess[cid].lanes = SubSeq(@, 1, i)], c, FALSE, R.t0, R.t1) : Finish(st2, AllOf(op, c))

----------------------------------------------------------------------------
(* The end of a round *)
Settled(c) ==
  /\ (R.open = 1 \/ ip[c] = Len(Inp(c)) \/ s.conn[c].s = "closed")
  /\ (op[c] = Len(Obs(c)) \/ s.conn[c].blind)
  /\ R.eof[c] = 1 => s.conn[c].s = "closed"
  /\ s.conn[c].owe => R.open = 1 \/ R.eof[c] = 1
  /\ Up(s, c) /\ ~s.conn[c].stalled =>
       /\ s.rq[c] = <<>>
       /\ s.sess[s.conn[c].cid].re = <<>>
       /\ s.sess[s.conn[c].cid].lanes = <<>>
       /\ ~MustExpire(c)

AfterRound(st) ==
  [st EXCEPT !.conn = [c \in Cs |->
        LET x == st.conn[c]
        IN [x EXCEPT !.owe = @ /\ R.eof[c] = 0,
                     !.cnt = IF x.stalled THEN @ ELSE 0,
                     !.s = IF @ = "none" /\ Inp(c) # <<>> THEN "pre" ELSE @,
                     !.lo = IF Pinged(c) THEN R.tb ELSE @,
                     !.hi = IF Pinged(c) THEN R.t1 ELSE @]]]

EndRound ==
  /\ Holds(\A c \in Cs : Settled(c))
  /\ Holds(\A x \in s.timers : ~MustFire(x))
  /\ rd' = rd + 1
  /\ s' = AfterRound(s)
  /\ ip' = [c \in Cs |-> 0] /\ op' = [c \in Cs |-> 0]
  /\ left' = [c \in Cs |-> IF R.open = 1 /\ s.conn[c].s # "closed" THEN SubSeq(Inp(c), ip[c] + 1, Len(Inp(c))) ELSE <<>>]
  /\ tr' = tr

(* Many messages from one connection to another, each acknowledged at once; only the packet ids are
   recorded, as ranges. *)
Bulk ==
  LET b == R.bulk
      used == InUse(s.sess[s.conn[b.sub].cid])
  IN /\ b.got = b.n /\ b.acks = b.n /\ b.others = 0
     /\ \A i \in 1..Len(b.ids) :
          LET x == b.ids[i] IN /\ 1 <= x[1] /\ x[1] <= x[2] /\ x[2] <= 65535
                               /\ \A u \in used : ~(x[1] <= u /\ u <= x[2])
     /\ \A i \in 1..(Len(b.ids) - 1) :
          LET x == b.ids[i] y == b.ids[i + 1] IN x[2] < y[1] \/ y[2] < x[1]
     /\ rd' = rd + 1 /\ UNCHANGED <<tr, s, ip, op, left>>

----------------------------------------------------------------------------
Init ==
  /\ tr \in 1..Len(Traces)
  /\ rd = 1
  /\ s = Start(N)
  /\ ip = [c \in Cs |-> 0] /\ op = [c \in Cs |-> 0]
  /\ left = [c \in Cs |-> <<>>]

(* In a round marked `seq` nothing depends on the interleaving, one is enough. *)
Turn(c) == IF R.seq = 0 THEN TRUE ELSE \A d \in 1..(c - 1) : ip[d] = Len(Inp(d)) \/ s.conn[d].s = "closed" \/ (s.rq[d] # <<>>)

Step == IF "bulk" \in DOMAIN R THEN Bulk
        ELSE \/ \E c \in Cs : ip[c] < Len(Inp(c)) /\ Holds(Turn(c)) /\ (Handle(c) \/ Lose(c) \/ Displace(c))
             \/ \E c \in Cs : Expire(c) \/ Kick(c) \/ KickLate(c)
             \/ \E x \in s.timers : Fire(x)
             \/ EndRound
Next == rd <= Len(T.rounds) /\ Step

(* The furthest round reached in each trace. *)
Progress == TLCSet(tr, IF rd > TLCGet(tr) THEN rd ELSE TLCGet(tr))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report ==
  /\ \A i \in 1..Len(Traces) :
       \/ TLCGet(i) > Len(Traces[i].rounds)
       \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(i)))
  /\ PrintT("CHECKED " \o ToString(Len(Traces)))

Spec == Init /\ [][Next]_vars
=============================================================================
