------------------------------ MODULE ClientMC ------------------------------
(* The client of Client against a broker that keeps to MQTT 5, over connections that break at any time and are
   resumed. TLC checks on all behaviours with a bounded number of messages and breaks that the exchanges of both
   directions complete: QoS 2 exactly once, QoS 1 at least once, within both receive maximums, and that a
   conforming broker never makes the client fail. *)
EXTENDS Client
CONSTANTS UP, DOWN,    \* publishes of the application and of the broker: sequences of their QoS
          BREAKS,      \* connections that break
          FORGETS,     \* how often the broker has lost the session when the client comes back
          AUTO,        \* 1: the client acknowledges
          RM, SMAX     \* receive maximums of client and broker

(* the messages of the configurations *)
Up == <<2, 1>>
Down == <<2, 1>>
Up3 == <<2, 1, 2>>
Down3 == <<1, 2, 2>>
None0 == <<>>

VARIABLES c,           \* the client
          toB, toC,    \* packets on their way
          b,           \* the broker: [in: QoS 2 ids received and not released, out: unfinished publishes [id, m, nx], conn]
          app,         \* the application: [sent: publishes handed over, acks: acknowledgements it is about to give, got: payloads]
          log,         \* payloads the broker took
          sentB,       \* publishes the broker has begun to send
          breaks, forgets, told   \* told: the client failed by itself
vars == <<c, toB, toC, b, app, log, sentB, breaks, forgets, told>>

Conf == [resume |-> 1, clean |-> 0, cid |-> "c", rm |-> RM, auto |-> AUTO, mps |-> 1000]
Pub(id, qos, pl, dup) == [t |-> "PUBLISH", id |-> id, qos |-> qos, pl |-> pl, dup |-> dup]
IsTo(p) == p.t = "PUBLISH"
Ack(sp) == [t |-> "CONNACK", rc |-> 0, sp |-> sp, rm |-> SMAX, ska |-> -1, sei |-> -1, aci |-> ""]

Init ==
  /\ c = Begin(Off, Conf, 0) /\ toB = <<>> /\ toC = <<>>
  /\ b = [in |-> {}, out |-> <<>>, conn |-> FALSE, has |-> FALSE]
  /\ app = [sent |-> 0, acks |-> <<>>, got |-> <<>>]
  /\ log = <<>> /\ sentB = 0 /\ breaks = BREAKS /\ forgets = FORGETS /\ told = FALSE

(* the client failed by its own decision *)
Took(st) == c' = st /\ told' = (told \/ (st.ph = "end" /\ c.ph # "end"))
MinFree(used) == CHOOSE i \in 1..MAXID : i \notin used /\ \A j \in 1..MAXID : j \notin used => i <= j

(* the application *)
Publishes ==
  /\ c.ph = "up" /\ app.sent < Len(UP)
  /\ Took(Ask(c, Pub(-1, UP[app.sent + 1], app.sent + 1, 0)))
  /\ app' = [app EXCEPT !.sent = @ + 1]
  /\ UNCHANGED <<toB, toC, b, log, sentB, breaks, forgets>>
Takes ==
  /\ c.fw[1] # <<>>
  /\ LET p == Head(c.fw[1])
         answer == CASE p.t = "PUBLISH" /\ p.qos = 1 -> <<Resp("PUBACK", p.id, 0)>>
                     [] p.t = "PUBLISH" /\ p.qos = 2 -> <<Resp("PUBREC", p.id, 0)>>
                     [] p.t = "PUBREC" -> <<Resp("PUBREL", p.id, 0)>>
                     [] p.t = "PUBREL" -> <<Resp("PUBCOMP", p.id, 0)>>
                     [] OTHER -> <<>>
     IN app' = [app EXCEPT !.got = IF IsTo(p) THEN Append(@, p.pl) ELSE @, !.acks = IF AUTO = 1 THEN @ ELSE @ \o answer]
  /\ c' = [c EXCEPT !.fw[1] = Tail(@)]
  /\ UNCHANGED <<toB, toC, b, log, sentB, breaks, forgets, told>>
Acknowledges ==
  /\ c.ph = "up" /\ app.acks # <<>>
  /\ Took(Ask(c, Head(app.acks))) /\ app' = [app EXCEPT !.acks = Tail(@)]
  /\ UNCHANGED <<toB, toC, b, log, sentB, breaks, forgets>>

(* the client *)
Sends ==
  /\ c.ph \in {"up", "wait"}
  /\ \/ /\ c.ob # <<>>
        /\ c' = [c EXCEPT !.ob = Tail(@)] /\ toB' = Append(toB, Head(c.ob))
     \/ /\ CanSend(c)
        /\ LET id == MinFree(Ids(c.snd))
           IN /\ c' = SendPublish(c, id) /\ toB' = Append(toB, [Head(c.q).m EXCEPT !.id = id])
  /\ UNCHANGED <<toC, b, app, log, sentB, breaks, forgets, told>>
Receives ==
  /\ c.ph \in {"up", "wait"} /\ c.ob = <<>> /\ toC # <<>>
  /\ Took(IF c.ph = "wait" THEN Answer(c, Head(toC), 0) ELSE Recv(c, Head(toC)))
  /\ toC' = Tail(toC)
  /\ UNCHANGED <<toB, b, app, log, sentB, breaks, forgets>>
Reconnects ==
  /\ c.ph = "end" /\ ~told
  /\ c' = Begin(c, Conf, 0)
  /\ UNCHANGED <<toB, toC, b, app, log, sentB, breaks, forgets, told>>

(* the broker *)
To(ps) == toC' = toC \o ps
Again2(x) == IF x.nx \in {"ack", "rec"} THEN [x.m EXCEPT !.dup = 1] ELSE Resp("PUBREL", x.id, 0)
Handles ==
  /\ toB # <<>> /\ toB' = Tail(toB)
  /\ LET p == Head(toB) IN
     CASE p.t = "CONNECT" ->
            \E lost \in (IF forgets > 0 /\ b.has THEN {FALSE, TRUE} ELSE {FALSE}) :
              /\ forgets' = IF lost THEN forgets - 1 ELSE forgets
              /\ LET sp == IF b.has /\ ~lost THEN 1 ELSE 0
                     old == IF sp = 1 THEN b ELSE [b EXCEPT !.in = {}, !.out = <<>>]
                 IN /\ b' = [old EXCEPT !.conn = TRUE, !.has = TRUE]
                    /\ To(<<Ack(sp)>> \o [i \in 1..Len(old.out) |-> Again2(old.out[i])])
              /\ UNCHANGED log
       [] p.t = "PUBLISH" /\ p.qos = 1 -> To(<<Resp("PUBACK", p.id, 0)>>) /\ log' = Append(log, p.pl) /\ UNCHANGED <<b, forgets>>
       [] p.t = "PUBLISH" /\ p.qos = 2 ->
            /\ To(<<Resp("PUBREC", p.id, 0)>>) /\ UNCHANGED forgets
            /\ log' = IF p.id \in b.in THEN log ELSE Append(log, p.pl)
            /\ b' = [b EXCEPT !.in = @ \cup {p.id}]
       [] p.t = "PUBLISH" /\ p.qos = 0 -> log' = Append(log, p.pl) /\ UNCHANGED <<b, toC, forgets>>
       [] p.t = "PUBREL" -> To(<<Resp("PUBCOMP", p.id, IF p.id \in b.in THEN 0 ELSE 146)>>) /\ b' = [b EXCEPT !.in = @ \ {p.id}] /\ UNCHANGED <<log, forgets>>
       [] p.t = "PUBACK" -> b' = [b EXCEPT !.out = IF NextOf(@, p.id) = "ack" THEN Without(@, p.id) ELSE @] /\ UNCHANGED <<toC, log, forgets>>
       [] p.t = "PUBREC" -> /\ b' = [b EXCEPT !.out = IF NextOf(@, p.id) = "rec" THEN Put(@, p.id, "comp") ELSE @]
                            /\ To(<<Resp("PUBREL", p.id, IF NextOf(b.out, p.id) \in {"rec", "comp"} THEN 0 ELSE 146)>>) /\ UNCHANGED <<log, forgets>>
       [] p.t = "PUBCOMP" -> b' = [b EXCEPT !.out = IF NextOf(@, p.id) = "comp" THEN Without(@, p.id) ELSE @] /\ UNCHANGED <<toC, log, forgets>>
  /\ UNCHANGED <<c, app, sentB, breaks, told>>
Offers ==
  /\ b.conn /\ sentB < Len(DOWN)
  /\ LET q == DOWN[sentB + 1]
         id == IF q = 0 THEN 0 ELSE MinFree(Ids(b.out))
         m == Pub(id, q, sentB + 1, 0)
     IN /\ q > 0 => Len(b.out) < RM
        /\ To(<<m>>) /\ b' = IF q = 0 THEN b ELSE [b EXCEPT !.out = Append(@, [id |-> id, m |-> m, nx |-> IF q = 1 THEN "ack" ELSE "rec"])]
  /\ sentB' = sentB + 1
  /\ UNCHANGED <<c, toB, app, log, breaks, forgets, told>>

(* the connection breaks; what was on its way may have arrived or not: what the broker has not handled is lost *)
Breaks ==
  /\ breaks > 0 /\ c.ph \in {"up", "wait"} /\ breaks' = breaks - 1
  /\ c' = Fail(c) /\ toB' = <<>> /\ toC' = <<>> /\ b' = [b EXCEPT !.conn = FALSE]
  \* acknowledgements the application has not handed over are given on the next connection
  /\ UNCHANGED <<app, log, sentB, forgets, told>>

Next == Publishes \/ Takes \/ Acknowledges \/ Sends \/ Receives \/ Reconnects \/ Handles \/ Offers \/ Breaks
Spec == Init /\ [][Next]_vars /\ WF_vars(Publishes) /\ WF_vars(Takes) /\ WF_vars(Acknowledges) /\ WF_vars(Sends) /\ WF_vars(Receives)
        /\ WF_vars(Reconnects) /\ WF_vars(Handles) /\ WF_vars(Offers)

----------------------------------------------------------------------------
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
(* K01, K02: exactly once *)
OnceUp == \A i \in 1..Len(UP) : UP[i] # 1 /\ FORGETS = 0 => Count(log, i) <= 1
OnceDown == \A i \in 1..Len(DOWN) : DOWN[i] # 1 => Count(app.got, i) <= 1
(* K09: a conforming broker never makes the client fail *)
NeverFails == ~told
(* K03: the unfinished publishes the broker has seen, or will see *)
WithinMaximum == /\ Len(c.snd) <= SMAX /\ Len(c.rcv) <= RM /\ Safe(c)
(* K04: first receptions keep the order *)
InOrder == \A i, j \in 1..Len(app.got) : i < j /\ (\A k \in 1..(j - 1) : app.got[k] # app.got[j]) => app.got[i] < app.got[j]
(* when nothing is left to do, everything is done *)
Idle == /\ c.ph = "up" /\ c.ob = <<>> /\ c.fw[1] = <<>> /\ toB = <<>> /\ toC = <<>> /\ app.acks = <<>>
        /\ app.sent = Len(UP) /\ sentB = Len(DOWN) /\ ~CanSend(c)
Complete == Idle =>
  /\ c.snd = <<>> /\ c.q = <<>> /\ c.rcv = <<>> /\ b.in = {} /\ b.out = <<>>
  /\ FORGETS = 0 => /\ \A i \in 1..Len(UP) : UP[i] > 0 => Count(log, i) >= 1
                    /\ \A i \in 1..Len(DOWN) : DOWN[i] > 0 => Count(app.got, i) >= 1
(* and it comes to that *)
Completes == <>[]Idle
=============================================================================
