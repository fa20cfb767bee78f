------------------------------ MODULE BrokerMC ------------------------------
(* The broker of Broker, closed: clients connect, subscribe, publish, acknowledge, leave or fail in any order, and
   responses and deliveries reach them at any time. TLC checks on all behaviours with at most STEPS client steps
   what the listed properties say about them. Connection 1 only watches: it holds "#" and reads nothing, so that
   its queue is the list of everything that was published. *)
EXTENDS Broker

CONSTANTS NC,          \* connections, with the first
          CIDS,        \* client ids of the others
          STEPS,       \* steps of clients
          MAXID,       \* packet ids
          LIMIT,       \* of active sessions, with the watching one
          KINDS        \* what clients do

VARIABLES s,
          left,        \* client steps left
          nxt,         \* the payload of the next publish
          asked,       \* connection |-> requests handled that have a response
          heard,       \* connection |-> responses seen
          got,         \* connection |-> payloads of messages received for the first time, with their QoS
          due,         \* client id |-> QoS 1 copies its session is owed
          held,        \* client id |-> filters, as told by SUBACK and UNSUBACK
          fate,        \* connection |-> "open", "bye", "failed", "ended" by another connection
          wills        \* connection |-> its will
vars == <<s, left, nxt, asked, heard, got, due, held, fate, wills>>

Cs == 2..NC
WATCH == "watch"
Cfg == [minka |-> 0, maxka |-> 60, maxact |-> LIMIT, maxexp |-> 100, chan |-> 100]
F == << <<"a">>, <<"+">> >>
Sub(f, q) == [f |-> f, qos |-> q, nl |-> 0, rap |-> 0]
Msg(n, q) == [topic |-> <<"a">>, pl |-> n, qos |-> q, ret |-> 0, props |-> <<>>]
Will(c, d) == [topic |-> <<"a">>, pl |-> 100 + c, qos |-> 1, ret |-> 0, props |-> <<>>, delay |-> d]
Conn(cid, clean, w) == LET p == [t |-> "CONNECT", cid |-> cid, clean |-> clean, ka |-> 0, sei |-> 10] IN
                       IF w = NoWill THEN p ELSE p @@ [will |-> w]

Start0 == LET a == Attach(Cfg, Start(NC), 1, Conn(WATCH, 1, NoWill), WATCH, 0, 0)
          IN [a EXCEPT !.sess[WATCH].subs = {[f |-> <<"#">>, qos |-> 2, nl |-> 0, rap |-> 0]}, !.rq[1] = <<>>]
Init ==
  /\ s = Start0 /\ left = STEPS /\ nxt = 1
  /\ asked = [c \in 1..NC |-> 0] /\ heard = [c \in 1..NC |-> 0] /\ got = [c \in 1..NC |-> <<>>]
  /\ due = [x \in CIDS |-> {}] /\ held = [x \in CIDS |-> {}]
  /\ fate = [c \in 1..NC |-> "open"] /\ wills = [c \in 1..NC |-> NoWill]

----------------------------------------------------------------------------
(* What a state owes to a session: copies with QoS 1 by payload and filter count; the watcher has all payloads *)
Copies(st, cid) == FoldLeft(LAMBDA a, x : a \o x.b, <<>>, st.sess[cid].lanes)
(* what is newly routed to the sessions between two states, by payload *)
OwedNow(st, cid) == {m.pl : m \in {x \in {Copies(st, cid)[i] : i \in 1..Len(Copies(st, cid))} : x.qos > 0}}
                    \cup {st.sess[cid].sent[i].m.pl : i \in 1..Len(st.sess[cid].sent)}
(* after any step of a client *)
After(st, c) ==
  /\ s' = st /\ left' = left - 1
  /\ due' = [x \in CIDS |-> IF Known(st, x) THEN due[x] \cup OwedNow(st, x) ELSE {}]

Used(c) == s.conn[c].s # "none"
Cid(c) == s.conn[c].cid
Ended(o, f) == [fate EXCEPT ![o] = f]
Connect(c) ==
  /\ ~Used(c) /\ \A d \in Cs : d < c => Used(d)
  /\ \E cid \in CIDS, clean \in {0, 1}, w \in {NoWill} \cup (IF "will" \in KINDS THEN {Will(c, 0)} ELSE {}) \cup (IF "delay" \in KINDS THEN {Will(c, 5)} ELSE {}) :
       IF Refused(Cfg, s, cid)
       THEN /\ s' = Closed(s, c) /\ fate' = Ended(c, "refused") /\ left' = left - 1
            /\ UNCHANGED <<nxt, asked, heard, got, due, held, wills>>
       ELSE LET fresh == clean = 1 \/ ~Known(s, cid)
                st == Attach(Cfg, s, c, Conn(cid, clean, w), cid, 0, 0)
            IN /\ s' = st /\ left' = left - 1
               /\ due' = IF fresh THEN [due EXCEPT ![cid] = {}] ELSE due
               /\ held' = IF fresh THEN [held EXCEPT ![cid] = {}] ELSE held
               /\ fate' = IF Owned(s, cid) THEN Ended(s.sess[cid].owner, "ended") ELSE fate
               /\ asked' = [asked EXCEPT ![c] = 1]
               /\ wills' = [wills EXCEPT ![c] = w]
               /\ UNCHANGED <<nxt, heard, got>>
Ask(c) == asked' = [asked EXCEPT ![c] = @ + 1]
Subs(c) == \E i \in 1..2, q \in {0, 1} :
  /\ After(Serve(s, c, [t |-> "SUBSCRIBE", id |-> 1, filters |-> <<Sub(F[i], q)>>]), c) /\ Ask(c)
  /\ held' = [held EXCEPT ![Cid(c)] = {x \in @ : x[1] # i} \cup {<<i, q>>}]
  /\ UNCHANGED <<nxt, heard, got, fate, wills>>
Unsubs(c) == \E i \in 1..2 :
  /\ After(Serve(s, c, [t |-> "UNSUBSCRIBE", id |-> 1, filters |-> <<F[i]>>]), c) /\ Ask(c)
  /\ held' = [held EXCEPT ![Cid(c)] = {x \in @ : x[1] # i}]
  /\ UNCHANGED <<nxt, heard, got, fate, wills>>
Pubs(c) == \E q \in {0, 1} :
  /\ After(Serve(s, c, Msg(nxt, q) @@ [t |-> "PUBLISH", id |-> q]), c)
  /\ IF q = 1 THEN Ask(c) ELSE UNCHANGED asked
  /\ nxt' = nxt + 1
  /\ UNCHANGED <<heard, got, held, fate, wills>>
Leaves(c) ==
  /\ \E st \in End(s, c, TRUE, 0, 0) : After(st, c)
  /\ fate' = Ended(c, "bye") /\ UNCHANGED <<nxt, asked, heard, got, held, wills>>
Fails(c) ==
  /\ \E st \in End(s, c, FALSE, 0, 0) : After(st, c)
  /\ fate' = Ended(c, "failed") /\ UNCHANGED <<nxt, asked, heard, got, held, wills>>
Acks(c) == \E i \in 1..Len(s.sess[Cid(c)].sent) :
  LET x == s.sess[Cid(c)].sent[i] IN
  /\ \A j \in 1..Len(s.sess[Cid(c)].re) : s.sess[Cid(c)].re[j].id # x.id      \* the client has seen it on this connection
  /\ s' = Serve(s, c, [t |-> "PUBACK", id |-> x.id])
  /\ due' = [due EXCEPT ![Cid(c)] = IF x.m.pl \in OwedNow(s', Cid(c)) THEN @ ELSE @ \ {x.m.pl}]
  /\ UNCHANGED <<left, nxt, asked, heard, got, held, fate, wills>>

(* The broker's side *)
Responds(c) ==
  /\ Up(s, c) /\ s.rq[c] # <<>>
  /\ s' = [s EXCEPT !.rq[c] = Tail(@), !.conn[c].acked = TRUE]
  /\ heard' = [heard EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<left, nxt, asked, got, due, held, fate, wills>>
Delivers(c) ==
  /\ Up(s, c) /\ s.conn[c].acked
  /\ LET cid == Cid(c)
         se == s.sess[cid]
     IN IF se.re # <<>>
        THEN /\ s' = [s EXCEPT !.sess[cid].re = Tail(@)]
             /\ got' = [got EXCEPT ![c] = Append(@, [pl |-> Head(se.re).m.pl, qos |-> 1, ep |-> 0, k |-> "again" \o ToString(Head(se.re).id), id |-> Head(se.re).id])]
        ELSE \E i \in 1..Len(se.lanes) : \E x \in 1..Len(se.lanes[i].b) :
               /\ Ready(se, i)
               /\ LET m == se.lanes[i].b[x]
                      t == Take(se, i, x)
                      free == (1..MAXID) \ InUse(se)
                      id == IF m.qos = 0 THEN 0 ELSE CHOOSE n \in free : \A k \in free : n <= k
                  IN /\ m.qos > 0 => free # {}
                     /\ s' = SetSess(s, cid, IF m.qos = 0 THEN t ELSE [t EXCEPT !.sent = Append(@, [id |-> id, m |-> m])])
                     /\ got' = [got EXCEPT ![c] = Append(@, [pl |-> m.pl, qos |-> m.qos, ep |-> se.lanes[i].ep, k |-> se.lanes[i].k, id |-> id])]
  /\ UNCHANGED <<left, nxt, asked, heard, due, held, fate, wills>>
Fires == \E x \in s.timers :
  /\ s' = PublishWill([s EXCEPT !.timers = @ \ {x}], x.will)
  /\ due' = [y \in CIDS |-> IF Known(s', y) THEN due[y] \cup OwedNow(s', y) ELSE {}]
  /\ UNCHANGED <<left, nxt, asked, heard, got, held, fate, wills>>

Next ==
  \/ left > 0 /\ \E c \in Cs :
       \/ Connect(c)
       \/ Up(s, c) /\ s.rq[c] = <<>> /\
            \/ "sub" \in KINDS /\ Subs(c)
            \/ "unsub" \in KINDS /\ Unsubs(c)
            \/ "pub" \in KINDS /\ Pubs(c)
            \/ "bye" \in KINDS /\ Leaves(c)
            \/ "fail" \in KINDS /\ Fails(c)
  \/ \E c \in Cs : Responds(c) \/ Delivers(c) \/ (Up(s, c) /\ Acks(c))
  \/ Fires
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Sess(x) == s.sess[x]
MySessions == {x \in CIDS : Known(s, x)}
(* B09: a session has at most one connection, a connection in use has its session *)
Ownership ==
  /\ \A c \in 1..NC : Up(s, c) => s.sess[Cid(c)].owner = c
  /\ \A x \in MySessions : Sess(x).owner # 0 => Up(s, Sess(x).owner) /\ Cid(Sess(x).owner) = x
(* B13 *)
WithinLimit == Cardinality(Active(s)) <= LIMIT
(* B06 *)
IdsUnique == \A x \in MySessions :
  /\ Cardinality(InUse(Sess(x))) = Len(Sess(x).sent) /\ InUse(Sess(x)) \subseteq 1..MAXID
  /\ Sess(x).owner = 0 => Sess(x).re = <<>>
  /\ Len(Sess(x).re) <= Len(Sess(x).sent)
(* B07 *)
Answered == \A c \in Cs : Up(s, c) => heard[c] + Len(s.rq[c]) = asked[c]
(* B02: the subscriptions are those acknowledged, whatever connections did since *)
Subscriptions == \A x \in MySessions :
  {<<y.f, y.qos>> : y \in Sess(x).subs} = {<<F[h[1]], h[2]>> : h \in held[x]}
(* B04: per connection, what one source published arrives in its order *)
InOrder == \A c \in Cs : \A i, j \in 1..Len(got[c]) :
  i < j /\ got[c][i].k = got[c][j].k /\ got[c][i].ep = got[c][j].ep => got[c][i].pl <= got[c][j].pl
(* B05, B04: what is owed with QoS 1 is queued or sent and not acknowledged; nothing else is *)
NothingLost == \A x \in MySessions : due[x] = OwedNow(s, x)
(* B05: what is not acknowledged has been sent on this connection, or will be *)
Redelivered == \A x \in MySessions : LET se == Sess(x) IN se.owner # 0 =>
  \A i \in 1..Len(se.sent) : \/ \E j \in 1..Len(se.re) : se.re[j] = se.sent[i]
                             \/ \E j \in 1..Len(got[se.owner]) : got[se.owner][j].id = se.sent[i].id /\ got[se.owner][j].pl = se.sent[i].m.pl
(* B01: with one subscription for "a" and one for "+", nobody gets more copies of a message than it has subscriptions, and only published ones *)
NotInvented == \A x \in MySessions : LET q == Copies(s, x) IN \A i \in 1..Len(q) :
  (q[i].pl < nxt \/ \E c \in Cs : q[i].pl = 100 + c) /\ Cardinality({j \in 1..Len(q) : q[j].pl = q[i].pl}) <= 2
(* B10 *)
Published(c) == LET q == Copies(s, WATCH) IN Cardinality({i \in 1..Len(q) : q[i].pl = 100 + c})
Due(c) == Cardinality({x \in s.timers : x.will.pl = 100 + c})
WillOnce == \A c \in Cs :
  LET w == wills[c]
      n == Published(c) + Due(c)
  IN CASE w = NoWill -> n = 0
       [] fate[c] \in {"open", "bye", "refused"} -> n = 0
       [] fate[c] \in {"failed", "ended"} -> IF w.delay = 0 THEN n = 1 ELSE n <= 1
(* the watcher has every publish once *)
Watched == LET q == Copies(s, WATCH) IN \A n \in 1..(nxt - 1) : Cardinality({i \in 1..Len(q) : q[i].pl = n}) = 1
=============================================================================
