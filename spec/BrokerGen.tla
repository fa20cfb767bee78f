----------------------------- MODULE BrokerGen -----------------------------
(* Generates scripts for the broker driver: behaviours of clients, in rounds. The state is an abstraction
   of Broker's, just enough to choose operations that are meaningful in it. Run with TLC's simulator; every
   behaviour prints one script. *)
EXTENDS Topics, FiniteSets, TLC, SequencesExt, Json, IOUtils

Pick(q) == q[RandomElement(1..Len(q))]
Of(S) == RandomElement(S)
Profile == IOEnv.PROFILE
DEPTH == atoi(IOEnv.DEPTH)

VARIABLES cs,      \* connections: [st, cid]
          seen,    \* client ids that have been used
          mid,     \* numbers messages
          rounds, cfg, phase
vars == <<cs, seen, mid, rounds, cfg, phase>>

----------------------------------------------------------------------------
(* Alphabets *)
TOPICS == << <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"b">>, <<"a", "">>, <<"", "a">>, <<"a", "", "b">>, <<"", "">>,
             <<"$s">>, <<"$s", "a">>, <<"a", "$s">>, <<"b", "a">>, <<"aa">>, <<"A">>, <<"a", "b", "c", "d">> >>
FILTERS == << <<"a">>, <<"a", "b">>, <<"a", "+">>, <<"+">>, <<"#">>, <<"a", "#">>, <<"a", "b", "#">>, <<"+", "b">>, <<"+", "+">>,
              <<"+", "#">>, <<"$s">>, <<"$s", "#">>, <<"$s", "+">>, <<"", "a">>, <<"", "+">>, <<"a", "">>, <<"", "#">>, <<"+", "a">>,
              <<"a", "+", "c">>, <<"a", "+", "#">>, <<"b">>, <<"", "">>, <<"+", "+", "+">>, <<"a", "", "#">>, <<"a", "b", "c">> >>
BADFILTERS == << <<"a#">>, <<"#", "a">>, <<"a", "#", "b">>, <<"+a">>, <<"a", "b+">>, <<"">>, <<"a", "#b">>, <<"##">>, <<"++">>, <<"a", "+#">> >>
BADTOPICS == << <<"">>, <<"#">>, <<"a", "+">>, <<"a", "#">>, <<"a+">>, <<"+", "b">>, <<"a", "x#y">> >>
FEWTOPICS == << <<"a">>, <<"a", "b">>, <<"b">> >>
FEWFILTERS == << <<"a">>, <<"a", "#">>, <<"+">>, <<"a", "b">>, <<"b">>, <<"#">>, <<"a", "+">> >>
PROPS == << <<>>, <<"pfi=0">>, <<"pfi=1", "ct=text/plain">>, <<"mei=30">>, <<"mei=0">>, <<"mei=4294967295">>, <<"ct=">>, <<"rt=re/x">>,
            <<"cd=0x00ff10">>, <<"cd=">>, <<"up=k:v">>, <<"up=a:1", "up=b:2">>, <<"up=k:">>,
            <<"cd=corr", "ct=json", "mei=77", "pfi=1", "rt=r/s", "up=x:y", "up=z:w">>, <<"ct=ütf">>, <<"up=ä:ö">>,
            <<"cd=0xdeadbeef", "rt=a/b">>, <<"mei=1", "up=q:r">> >>
PAYLOADS == << "", "x", "0x00", "0xff00fe80", "100*y", "3000*z", "20000*w", "héllo", "0x0d0a", "{\"a\":1}" >>

FEW == Profile \notin {"B01", "B02", "B17"}
ATopic(dummy) == IF FEW THEN Pick(FEWTOPICS) ELSE Pick(TOPICS)
AFilter(dummy) == IF FEW THEN Pick(FEWFILTERS) ELSE Pick(FILTERS)
CIDS == CASE Profile = "B13" -> <<"a", "b", "c", "d", "e">>
          [] Profile \in {"B08", "B09"} -> <<"a", "b", "c">>
          [] OTHER -> <<"a", "b", "c", "d">>

----------------------------------------------------------------------------
N == 24                                       \* connections available to a script
Ups == {i \in 1..Len(cs) : cs[i].st = "up"}
UpCids == {cs[i].cid : i \in Ups}

Ofs(c, p) == [c |-> c, p |-> p]
Msg(m) == "m" \o ToString(m)

Opt(q) == IF Of(1..2) = 1 THEN <<>> ELSE <<Pick(q)>>
RandProps(dummy) ==
  Opt(<<"cd=0x00ff10", "cd=corr", "cd=0x80", "cd=300*c", "cd=0xc328", "cd=">>)
  \o Opt(<<"ct=", "ct=text/plain", "ct=ütf", "ct=200*t">>)
  \o Opt(<<"mei=0", "mei=1", "mei=255", "mei=256", "mei=65536", "mei=4294967295">>)
  \o Opt(<<"pfi=0", "pfi=1">>)
  \o Opt(<<"rt=re/x", "rt=r", "rt=150*r">>)
  \o CASE Of(1..4) = 1 -> <<>>
       [] Of(1..3) = 1 -> <<"up=k:v">>
       [] Of(1..2) = 1 -> <<Pick(<<"up=a:1", "up=z:", "up=k:100*v">>), Pick(<<"up=b:2", "up=a:1", "up=ä:ö">>)>>
       [] OTHER -> <<"up=z:1", "up=a:2", "up=z:1">>
PublishOp(c, m) ==
  IF Profile = "B03"
  THEN Ofs(c, [t |-> "PUBLISH", topic |-> ATopic(0), qos |-> Of(0..2), dup |-> Pick(<<0, 0, 0, 1>>), ret |-> Of(0..1), id |-> 100 + m,
               pl |-> Pick(PAYLOADS),
               props |-> IF Of(1..6) = 1 THEN <<"ta=3">> \o RandProps(0) ELSE RandProps(0)])
  ELSE Ofs(c, [t |-> "PUBLISH", topic |-> ATopic(0),
               qos |-> IF Profile \in {"B05", "B06", "B08", "B16"} THEN Pick(<<0, 1, 1, 1, 1, 2>>) ELSE Pick(<<0, 0, 1, 1, 2>>),
               dup |-> Pick(<<0, 0, 0, 0, 0, 0, 0, 1>>), ret |-> Pick(<<0, 0, 0, 1>>), id |-> 100 + m, pl |-> Msg(m),
               props |-> IF Of(1..4) = 1 THEN Pick(PROPS) ELSE <<>>])

FilterOf(q) ==
  [f |-> IF Profile \in {"B02", "B14"} /\ Of(1..5) = 1 THEN Pick(BADFILTERS) ELSE AFilter(0),
   qos |-> q, nl |-> IF Profile = "B17" THEN Of(0..1) ELSE Pick(<<0, 0, 0, 1>>), rap |-> Of(0..1), rh |-> Pick(<<0, 0, 1, 2>>)]
SubQos(dummy) == IF Profile \in {"B05", "B06", "B08"} THEN Pick(<<1, 1, 1, 2>>) ELSE Of(0..2)
UserProps(dummy) == IF Of(1..5) = 1 THEN Pick(<< <<"up=k:v">>, <<"up=a:1", "up=a:2">>, <<"up=k:100*v">> >>) ELSE <<>>
SubscribeOp(c, m) ==
  Ofs(c, [t |-> "SUBSCRIBE", id |-> 100 + m,
          filters |-> CASE Of(1..3) = 1 -> <<FilterOf(SubQos(0)), FilterOf(SubQos(0)), FilterOf(SubQos(0))>>
                        [] Of(1..2) = 1 -> <<FilterOf(SubQos(0)), FilterOf(SubQos(0))>>
                        [] OTHER -> <<FilterOf(SubQos(0))>>,
          props |-> UserProps(0)])
UFilter(dummy) == IF Of(1..8) = 1 THEN Pick(BADFILTERS) ELSE AFilter(0)
UnsubscribeOp(c, m) ==
  Ofs(c, [t |-> "UNSUBSCRIBE", id |-> 100 + m,
          filters |-> IF Of(1..2) = 1 THEN <<UFilter(0)>> ELSE <<UFilter(0), UFilter(0), UFilter(0)>>,
          props |-> UserProps(0)])
PingOp(c) == Ofs(c, [t |-> "PINGREQ"])
AckOp(c) == (IF Of(1..5) = 1 THEN [c |-> c, ackall |-> 1] ELSE [c |-> c, ack |-> Of(0..3)])
            @@ IF Of(1..5) > 1 THEN [x \in {} |-> 0]
               ELSE "rc" :> Pick(<<0, 16, 128, 131, 135, 151, 153>>) @@ "props" :> UserProps(0) \o Opt(<<"rs=because">>)

(* One request of a connected client. *)
Request(c, m) ==
  LET k == CASE Profile = "B01" -> Pick(<<"pub", "pub", "sub", "sub", "unsub">>)
             [] Profile = "B02" -> Pick(<<"pub", "sub", "sub", "unsub", "unsub">>)
             [] Profile \in {"B03", "B17"} -> Pick(<<"pub", "pub", "pub", "sub">>)
             [] Profile = "B04" -> Pick(<<"pub", "pub", "pub", "pub", "sub", "ping", "ack">>)
             [] Profile \in {"B05", "B06"} -> Pick(<<"pub", "pub", "pub", "ack", "ack", "sub">>)
             [] Profile = "B07" -> Pick(<<"pub", "pub", "sub", "unsub", "ping", "ping", "ack">>)
             [] OTHER -> Pick(<<"pub", "pub", "pub", "sub", "unsub", "ping", "ack">>)
  IN CASE k = "pub" -> PublishOp(c, m)
       [] k = "sub" -> SubscribeOp(c, m)
       [] k = "unsub" -> UnsubscribeOp(c, m)
       [] k = "ping" -> PingOp(c)
       [] OTHER -> AckOp(c)

WillFor(m) ==
  [topic |-> Pick(FEWTOPICS), pl |-> IF Of(1..6) = 1 THEN "" ELSE "w" \o Msg(m), qos |-> Of(0..2), ret |-> Of(0..1),
   delay |-> IF Profile = "B10" THEN Pick(<<0, 0, 2, 4, 9>>) ELSE Pick(<<0, 0, 0, 3>>),
   props |-> IF Profile = "B10" THEN RandProps(0) ELSE <<>>]
WILLY == {"B09", "B10", "B11", "B14"}
HasWill(dummy) == CASE Profile = "B10" -> Of(1..5) > 1
             [] Profile \in WILLY -> Of(1..3) > 1
             [] OTHER -> Of(1..8) = 1
KAS == CASE Profile = "B12" -> <<0, 1, 19, 20, 21, 60, 99, 100, 101, 65535, 32767>>
         [] Profile = "B11" -> <<0, 1, 2, 3, 4, 10>>
         [] OTHER -> <<30, 60>>
SEIS == IF Profile = "B12" THEN <<-1, 0, 1, 299, 300, 301, 65536, 2147483647, -2, -3>> ELSE <<-1, 0, 100>>

Connect(cid, clean, m) ==
  LET base == [t |-> "CONNECT", cid |-> cid, clean |-> clean, ka |-> Pick(KAS), sei |-> Pick(SEIS),
               props |-> IF Of(1..4) = 1 THEN Pick(<< <<"tam=5", "up=c:d">>, <<"rpi=0", "rri=0">>, <<"rpi=1">>, <<"rri=1">>, <<"rm=65535">>,
                                                      <<"mps=268435455">>, <<"up=a:1", "up=a:2">> >>) ELSE <<>>]
      usr == IF Of(1..8) = 1 THEN ("user" :> "u" @@ "pass" :> "p") @@ base ELSE base
  IN IF HasWill(0) THEN ("will" :> WillFor(m)) @@ usr ELSE usr

----------------------------------------------------------------------------
(* Building blocks; each appends one round. *)
Round(ops) == rounds' = Append(rounds, [ops |-> ops])
Mids(k) == mid' = mid + k

(* A new connection. *)
NewConnect ==
  /\ Len(cs) < N
  /\ \E cid \in {IF Profile \in {"B08", "B12"} /\ Of(1..6) = 1 THEN "" ELSE Pick(CIDS)},
        clean \in {IF Profile \in {"B05", "B06", "B16"} THEN Pick(<<0, 0, 0, 1>>) ELSE Of(0..1)} :
       LET c == Len(cs) + 1
           old == {i \in 1..Len(cs) : cs[i].st = "up" /\ cs[i].cid = cid /\ cid # ""}
           anon == {i \in 1..Len(cs) : cs[i].cid = ""}
       IN /\ (old # {} => Profile \in {"B08", "B09", "B10", "B13", "B15"} \/ Of(1..3) = 1)
          /\ IF anon # {} /\ cid = "" /\ Of(1..2) = 1
             THEN \E k \in {Of(anon)} :
                    /\ rounds' = Append(rounds, [ops |-> <<[as |-> k] @@ Ofs(c, Connect("x", clean, mid))>>])
                    /\ cs' = Append([i \in 1..Len(cs) |-> IF i = k THEN [cs[i] EXCEPT !.st = "gone", !.cid = "?"] ELSE cs[i]],
                                    [st |-> "up", cid |-> "?"])
             ELSE /\ rounds' = Append(rounds, [ops |-> <<Ofs(c, Connect(cid, clean, mid))>>])
                  /\ cs' = Append([i \in 1..Len(cs) |-> IF i \in old THEN [cs[i] EXCEPT !.st = "gone"] ELSE cs[i]],
                                  [st |-> "up", cid |-> cid])
          /\ seen' = seen \union {cid}
          /\ mid' = mid + 1
          /\ UNCHANGED <<cfg, phase>>

(* Requests of one client, sent together. *)
One ==
  /\ Ups # {}
  /\ \E c \in {Of(Ups)}, k \in {Pick(<<1, 1, 1, 2, 3>>)} :
       /\ Round([i \in 1..k |-> Request(c, mid + i)])
       /\ Mids(k)
  /\ UNCHANGED <<cs, seen, cfg, phase>>
(* Requests of several clients at the same time. *)
Several ==
  /\ Cardinality(Ups) > 1
  /\ \E k \in {Pick(<<2, 3, 4, 5>>)} :
       /\ Round([i \in 1..k |-> Request(Of(Ups), mid + i)])
       /\ Mids(k)
  /\ UNCHANGED <<cs, seen, cfg, phase>>

(* Acknowledgements only. *)
Acks ==
  /\ Ups # {}
  /\ \E c \in {Of(Ups)} : Round(<<AckOp(c)>>)
  /\ UNCHANGED <<cs, seen, mid, cfg, phase>>

(* Ways to end a connection. *)
Raw(c, h) == [c |-> c, raw |-> h]
GARBAGES == << "3003000161", "f000", "0000", "36050001610001", "82020001", "200180", "10", "d0", "3201", "e0018000", "30ffffffff01",
               "3206000161000100ff", "320700016100010299", "300500ffc3", "300400016105", "c001ff", "6200", "500300010005ff" >>
Ending(c, m) ==
  LET k == CASE Profile = "B14" -> Pick(<<"second", "server", "server", "topic", "garbage", "bye", "fin">>)
             [] Profile = "B15" -> Pick(<<"garbage", "garbage", "drop", "fin", "part", "topic">>)
             [] Profile = "B05" -> Pick(<<"drop", "fin", "bye", "part", "will">>)
             [] OTHER -> Pick(<<"bye", "bye", "fin", "fin", "drop", "part", "will", "garbage", "second", "server", "topic">>)
      props == IF Of(1..4) = 1 THEN Opt(<<"sei=0", "sei=5", "sei=100">>) \o Opt(<<"rs=over">>) \o UserProps(0) ELSE <<>>
  IN CASE k = "bye" -> <<Ofs(c, [t |-> "DISCONNECT", rc |-> 0, props |-> props])>>
       [] k = "will" -> <<Ofs(c, [t |-> "DISCONNECT", rc |-> Pick(<<4, 4, 129, 128, 130, 131, 144, 147, 148, 149, 150, 151, 152, 153>>), props |-> props])>>
       [] k = "fin" -> <<[c |-> c, fin |-> 1]>>
       [] k = "drop" -> <<[c |-> c, drop |-> 1]>>
       [] k = "part" -> <<Raw(c, Pick(<<"30", "3010", "30100001", "8210000100", "c0", "e0">>)), [c |-> c, fin |-> 1]>>
       [] k = "garbage" -> <<Raw(c, "30040001610f")>>        \* a property length longer than the packet
       [] k = "second" -> <<Ofs(c, [t |-> "CONNECT", cid |-> "z", clean |-> 1, ka |-> 60])>>
       [] k = "server" -> <<Ofs(c, Pick(<<[t |-> "PINGRESP"], [t |-> "SUBACK", id |-> 5, rcs |-> <<0>>],
                                          [t |-> "UNSUBACK", id |-> 6, rcs |-> <<0>>], [t |-> "CONNACK", rc |-> 0]>>))>>
       [] OTHER -> <<Ofs(c, [t |-> "PUBLISH", topic |-> Pick(BADTOPICS), qos |-> Of(0..1), id |-> 100 + m, pl |-> Msg(m)])>>
EndOne ==
  /\ Ups # {}
  /\ \E c \in {Of(Ups)} :
       LET pre == IF Of(1..3) = 1 /\ Profile # "B15" THEN <<PublishOp(c, mid)>> ELSE <<>>
           post == IF Of(1..3) = 1 THEN <<PublishOp(c, mid + 2)>> ELSE <<>>   \* must not be served any more
           e == Ending(c, mid + 1)
       IN /\ \/ Round(pre \o e)
             \/ Round(e)
             \/ Profile = "B14" /\ Round(e \o post)
          /\ cs' = [cs EXCEPT ![c].st = "gone"]
  /\ Mids(3)
  /\ UNCHANGED <<seen, cfg, phase>>
(* A connection ends while others are at work. *)
EndAmong ==
  /\ Cardinality(Ups) > 1
  /\ \E c \in {Of(Ups)} : \E d \in {Of(Ups \ {c})}, k \in {Of(1..3)} :
       LET e == Pick(<< <<Ofs(c, [t |-> "DISCONNECT", rc |-> 0])>>, <<[c |-> c, fin |-> 1]>>,
                        <<Ofs(c, [t |-> "DISCONNECT", rc |-> 4])>> >>)
       IN Round(IF Of(1..2) = 1 THEN e \o [i \in 1..k |-> PublishOp(d, mid + i)]
                ELSE [i \in 1..k |-> PublishOp(d, mid + i)] \o e)
          /\ cs' = [cs EXCEPT ![c].st = "gone"]
  /\ Mids(3)
  /\ UNCHANGED <<seen, cfg, phase>>

(* A connection that does not start with CONNECT. *)
Stranger ==
  /\ Len(cs) < N
  /\ \E k \in {Of(1..9)}, m \in {mid} :
       LET c == Len(cs) + 1
       IN Round(CASE k = 1 -> <<SubscribeOp(c, m), PublishOp(c, m)>>
                  [] k = 2 -> <<PublishOp(c, m)>>
                  [] k = 3 -> <<Ofs(c, [t |-> "DISCONNECT", rc |-> 0])>>
                  [] k = 4 -> <<Raw(c, Pick(<<"f000", "30040001610f", "0000">>))>>
                  [] k = 5 -> <<[c |-> c, open |-> 1], [c |-> c, fin |-> 1]>>
                  [] k = 6 -> <<Ofs(c, [t |-> "PUBACK", id |-> 1])>>
                  [] k = 7 -> <<UnsubscribeOp(c, m)>>
                  [] k = 8 -> <<Ofs(c, Pick(<<[t |-> "CONNACK", rc |-> 0], [t |-> "PINGRESP"], [t |-> "PUBREL", id |-> 3]>>))>>
                  [] OTHER -> <<PingOp(c), SubscribeOp(c, m)>>)
  /\ cs' = Append(cs, [st |-> "gone", cid |-> "-"])
  /\ Mids(1)
  /\ UNCHANGED <<seen, cfg, phase>>

(* A connection of no client: it sends nothing, or the beginning of something (of a CONNECT, of a TLS handshake, of a frame
   that announces much), or what is neither MQTT nor TLS, and stays for ever or goes at once. It has no part in the trace. *)
Nobody ==
  /\ Round(<<[nobody |-> Pick(<<"", "", "10", "1010", "101000044d515454", "10ffffff7f", "16", "1603010200", "160301020001", "16030300050100000100", "ffffffff", "00", "474554202f20485454502f312e310d0a0d0a">>),
              stay |-> Of(0..1)]>>)
  /\ UNCHANGED <<cs, seen, mid, cfg, phase>>

(* Time passes. *)
Pass ==
  /\ \E ms \in {CASE Profile = "B10" -> Pick(<<700, 1500, 3300, 5300, 10000>>)
                  [] Profile = "B11" -> Pick(<<900, 1700, 2600, 4100, 5600>>)
                  [] OTHER -> Pick(<<500, 5000>>)} :
       Round(<<[adv |-> ms]>>)
  /\ UNCHANGED <<cs, seen, mid, cfg, phase>>

Blocks ==
  CASE Profile = "B01" -> <<"con", "one", "one", "one", "several", "several", "end">>
    [] Profile = "B02" -> <<"con", "one", "one", "one", "one", "several", "end">>
    [] Profile = "B03" -> <<"con", "one", "one", "one", "one">>
    [] Profile = "B04" -> <<"con", "several", "several", "several", "one">>
    [] Profile \in {"B05", "B06"} -> <<"con", "con", "one", "one", "several", "ack", "end", "among">>
    [] Profile = "B07" -> <<"con", "one", "several", "several", "several">>
    [] Profile = "B08" -> <<"con", "con", "con", "one", "one", "end", "ack">>
    [] Profile = "B09" -> <<"con", "con", "con", "one", "several", "end">>
    [] Profile = "B10" -> <<"con", "con", "end", "end", "among", "pass", "one">>
    [] Profile = "B12" -> <<"con", "con", "end">>
    [] Profile = "B13" -> <<"con", "con", "con", "end", "end", "among", "stranger", "nobody">>
    [] Profile = "B14" -> <<"con", "stranger", "stranger", "nobody", "end", "end", "one">>
    [] Profile = "B15" -> <<"con", "stranger", "nobody", "end", "end", "several", "several">>
    [] Profile = "B17" -> <<"con", "one", "one", "one", "several">>
    [] OTHER -> <<"con", "one", "several", "end", "ack", "pass">>

Body ==
  /\ phase = "body" /\ Len(rounds) < DEPTH
  /\ \E b \in {IF Cardinality(Ups) < 2 THEN Pick(<<"con", "con", "one">>) ELSE Pick(Blocks)} :
       CASE b = "con" -> NewConnect
         [] b = "one" -> One
         [] b = "several" -> Several
         [] b = "ack" -> Acks
         [] b = "end" -> EndOne
         [] b = "among" -> EndAmong
         [] b = "stranger" -> Stranger
         [] b = "nobody" -> Nobody
         [] OTHER -> Pass
Stutter == phase = "body" /\ Len(rounds) < DEPTH /\ UNCHANGED vars

(* At the end a new client publishes to all topics, then every session is resumed and it does so again: what
   the history has left becomes visible. *)
Audit ==
  LET c == Len(cs) + 1
      ts == IF FEW THEN FEWTOPICS ELSE TOPICS
      pubs(k) == [i \in 1..Len(ts) |-> Ofs(c, [t |-> "PUBLISH", topic |-> ts[i], qos |-> 1, id |-> k + i,
                                               pl |-> "p" \o ToString(k + i)])]
      back == SetToSeq({x \in seen : x # "" /\ x \notin UpCids})
  IN /\ phase = "body" /\ Len(rounds) >= DEPTH
     /\ phase' = "done"
     /\ rounds' = rounds
          \o << [ops |-> <<Ofs(c, [t |-> "CONNECT", cid |-> "auditor", clean |-> 1, ka |-> 60])>>],
                [ops |-> pubs(1000)] >>
          \o [i \in 1..Len(back) |-> [ops |-> <<Ofs(c + i, [t |-> "CONNECT", cid |-> back[i], clean |-> 0, ka |-> 60])>>]]
          \o << [ops |-> pubs(2000)] >>
     /\ cs' = cs \o <<[st |-> "up", cid |-> "auditor"]>> \o [i \in 1..Len(back) |-> [st |-> "up", cid |-> back[i]]]
     /\ UNCHANGED <<seen, mid, cfg>>

----------------------------------------------------------------------------
(* Scenes: scripts of a certain course, with details left to chance. Operators with a dummy argument are
   evaluated anew each time. *)
Con(c, cid, clean) == Ofs(c, [t |-> "CONNECT", cid |-> cid, clean |-> clean, ka |-> 60])
ConW(c, cid, clean, m) == Ofs(c, [t |-> "CONNECT", cid |-> cid, clean |-> clean, ka |-> 60, will |-> [WillFor(m) EXCEPT !.delay = 0]])
Sub(c, id, fs) == Ofs(c, [t |-> "SUBSCRIBE", id |-> id, filters |-> fs])
Flt(f, q) == [f |-> f, qos |-> q, nl |-> 0, rap |-> 0, rh |-> 0]
Pub(c, m, topic, q) == Ofs(c, [t |-> "PUBLISH", topic |-> topic, qos |-> q, dup |-> 0, ret |-> 0, id |-> m, pl |-> Msg(m), props |-> <<>>])
R1(ops) == [ops |-> ops]
Names == <<"a", "b", "c", "d", "e", "f">>
Bye(c) == Ofs(c, [t |-> "DISCONNECT", rc |-> 0])
Fin(c) == [c |-> c, fin |-> 1]
RandSub(c, id) == Sub(c, id, IF Of(1..2) = 1 THEN <<Flt(Pick(FEWFILTERS), Of(0..2))>>
                             ELSE <<Flt(Pick(FEWFILTERS), Of(0..2)), Flt(Pick(FEWFILTERS), Of(0..2))>>)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

(* Several clients send at the same time, to a broker with several threads. *)
Burst(dummy) ==
  LET n == Of(3..5)
      pubs == Of(2..3)
      len == IF Profile = "BURST7" THEN Of(2..4) ELSE Pick(<<5, 10, 25>>)
      One1(c, i) ==
        IF Profile = "BURST7"
        THEN CASE Of(1..5) = 1 -> RandSub(c, 100 * c + i)
               [] Of(1..4) = 1 -> PingOp(c)
               [] Of(1..4) = 1 -> Ofs(c, [t |-> "UNSUBSCRIBE", id |-> 100 * c + i, filters |-> <<Pick(FEWFILTERS)>>])
               [] OTHER -> Pub(c, 100 * c + i, Pick(FEWTOPICS), Of(0..1))
        ELSE Pub(c, 100 * c + i, Pick(FEWTOPICS), Pick(<<0, 1, 1, 2>>))
      burst(k) == [ops |-> Cat([c \in 1..pubs |-> [i \in 1..len |-> One1(c, k + i)]]), burst |-> 1,
                   seq |-> IF Profile = "BURST7" THEN 0 ELSE 1, group |-> Pick(<<1, 3, 100>>)]
  IN [cfg |-> [chan |-> 1000, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> n + 1, mt |-> 4,
      rounds |-> [c \in 1..n |-> R1(<<Con(c, Names[c], 0), RandSub(c, 10 + c)>>)]
                 \o <<burst(0)>> \o <<[ops |-> [c \in 1..n |-> [c |-> c, ackall |-> 1]], seq |-> 1]>> \o <<burst(50)>>
                 \o <<R1(<<Con(n + 1, "z", 1)>> \o [i \in 1..3 |-> Pub(n + 1, 900 + i, FEWTOPICS[i], 1)])>>]

(* Connections fight for one session on several threads. *)
Storm(dummy) ==
  LET k == TLCEval(Of(2..3))
      held == TLCEval(Of(1..3) > 1)
      leaves == TLCEval(held /\ Of(1..2) = 1)       \* the holder disconnects while others connect
      will(i) == leaves \/ Of(1..3) = 1
  IN [cfg |-> [chan |-> 1000, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> Pick(<<-1, 2>>)], n |-> 8, mt |-> 4,
      rounds |-> <<R1(<<Con(1, "a", 0), RandSub(1, 11)>>)>>
                 \o (IF held THEN <<R1(<<Con(2, "v", 0), RandSub(2, 12)>>)>> ELSE <<>>)
                 \o <<[ops |-> [i \in 1..(IF leaves THEN 1 ELSE k) |-> IF will(i) THEN ConW(2 + i, "v", Of(0..1), i) ELSE Con(2 + i, "v", Of(0..1))]
                               \o (IF Of(1..2) = 1 THEN <<Pub(1, 40, Pick(FEWTOPICS), 1)>> ELSE <<>>)
                               \o (IF leaves THEN <<Bye(2) @@ [us |-> Pick(<<0, 30, 60, 90, 120, 150, 200, 300, 400, 600>>)]>> ELSE <<>>),
                        burst |-> 1, seq |-> 0, group |-> 1]>>
                 \o <<R1([i \in 1..3 |-> Pub(1, 50 + i, FEWTOPICS[i], 1)])>>
                 \o (IF leaves THEN <<R1(<<Fin(3)>>)>> ELSE <<>>)
                 \o <<R1(<<Con(6, "v", 0)>>), R1([i \in 1..3 |-> Pub(1, 60 + i, FEWTOPICS[i], 1)])>>
                 \o <<R1(<<Con(7, "b", 0)>>)>>]

(* What others do while a takeover is under way. *)
Window(dummy) ==
  LET open1(ops) == [ops |-> ops, noadv |-> 1]
      \* 1 subscriber, 2 publisher, 3 the older connection, 4 the newer one, 5, 6 others
      step(k) ==
        CASE Of(1..8) = 1 -> <<Con(5, Pick(<<"v", "w", "a">>), Of(0..1))>>
          [] Of(1..7) = 1 -> <<Sub(1, k, <<Flt(Pick(FEWFILTERS), Of(0..2))>>)>>
          [] Of(1..5) = 1 -> <<Ofs(1, [t |-> "UNSUBSCRIBE", id |-> k, filters |-> <<Pick(FEWFILTERS), Pick(FEWFILTERS)>>])>>
          [] Of(1..6) = 1 -> <<PingOp(Of({1, 2}))>>
          [] Of(1..9) = 1 -> <<Bye(Of({1, 2}))>>
          [] Of(1..9) = 1 -> <<Fin(Of({2, 4}))>>
          [] Of(1..8) = 1 -> <<Pub(4, k, Pick(FEWTOPICS), Of(0..1))>>
          [] Of(1..8) = 1 -> <<Ofs(4, [t |-> "SUBSCRIBE", id |-> k, filters |-> <<Flt(Pick(FEWFILTERS), 1)>>])>>
          [] OTHER -> <<Pub(2, k, Pick(FEWTOPICS), Pick(<<0, 1, 1>>))>>
      steps == Of(1..4)
      same == Of(1..4) = 1
      before == CASE Of(1..4) = 1 -> <<Pub(3, 30, Pick(FEWTOPICS), 1)>>
                  [] Of(1..4) = 1 -> <<Pub(2, 31, Pick(FEWTOPICS), 1)>>
                  [] OTHER -> <<>>
  IN [cfg |-> [chan |-> Pick(<<100, 100, 2>>), minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> Pick(<<-1, -1, 3, 4>>)], n |-> 9,
      rounds |-> <<R1(<<Con(1, "s", 0), RandSub(1, 11)>>), R1(<<Con(2, "p", 0)>>),
                   R1(<<IF Of(1..2) = 1 THEN ConW(3, "v", 0, 3) ELSE Con(3, "v", 0), RandSub(3, 13)>>)>>
                 \o <<R1(<<Pub(2, 21, Pick(FEWTOPICS), 1)>>), R1(<<AckOp(Of({1, 3}))>>)>>
                 \o (IF same THEN <<R1(before \o <<IF Of(1..2) = 1 THEN ConW(4, "v", Of(0..1), 4) ELSE Con(4, "v", Of(0..1))>> \o step(40) \o step(41))>>
                      ELSE <<open1(before \o <<IF Of(1..2) = 1 THEN ConW(4, "v", Of(0..1), 4) ELSE Con(4, "v", Of(0..1))>>)>>
                           \o [i \in 1..steps |-> open1(step(40 + i))])
                 \o <<R1(<<[adv |-> 700]>>), R1(<<[adv |-> 700]>>), R1(<<Pub(2, 51, Pick(FEWTOPICS), 1), Pub(2, 52, Pick(FEWTOPICS), 0)>>)>>
                 \o <<R1(<<Con(6, "z", 1)>>), R1([i \in 1..3 |-> Pub(6, 900 + i, FEWTOPICS[i], 1)])>>
                 \o <<R1(<<Con(7, "v", 0)>>), R1(<<Con(8, "s", 0)>>), R1([i \in 1..3 |-> Pub(6, 910 + i, FEWTOPICS[i], 1)])>>]

(* A subscriber that does not read while more is published than fits its queue. *)
Stall(dummy) ==
  LET wide == Of(1..4) = 1                           \* its queue has room for everything, only the sockets fill
      chan == IF wide THEN 100 ELSE Of(3..6)
      rounds1 == Of(6..12)
      big == Pick(<<"400000*x", "700000*y", "900000*z">>)
      bigs == IF wide THEN Of(4..12) ELSE Pick(<<0, 12, 12>>)                    \* rounds with a payload that fills the sockets
      q1 == Of(0..2)
      B(m, k, q) == [Pub(3, m, <<"a">>, q) EXCEPT !.p.pl = IF k <= bigs THEN big ELSE Msg(m)]
      fill(k) == R1([i \in 1..Pick(<<1, 2, 2>>) |-> B(100 * k + i, k, Pick(<<0, 1, 1>>))])
      late == CASE wide -> <<[c |-> 1, noping |-> 1], [c |-> 1, stall |-> 0]>>
                [] Of(1..4) = 1 -> <<Con(4, "s", Of(0..1))>>          \* it comes back on another connection
                [] Of(1..3) = 1 -> <<[c |-> 1, drop |-> 1]>>
                [] OTHER -> <<[c |-> 1, stall |-> 0]>>
  IN [cfg |-> [chan |-> chan, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 9,
      rounds |-> <<R1(<<Con(1, "s", 0), Sub(1, 11, <<Flt(<<"a">>, q1)>>)>>), R1(<<Con(2, "w", 0), Sub(2, 12, <<Flt(<<"a">>, 1)>>)>>),
                   R1(<<Con(3, "p", 0)>>), R1(<<Pub(3, 31, <<"a">>, 1)>>), R1(<<[c |-> 1, stall |-> 1]>>)>>
                 \o [k \in 1..(IF bigs = 0 THEN rounds1 ELSE 12) |-> fill(k)]
                 \o <<R1(<<PingOp(2), Con(5, "n", 1)>>)>>
                 \o <<R1(late)>>
                 \o <<R1(<<Pub(3, 41, <<"a">>, 1)>>), R1(<<Con(6, "s", 0)>>), R1(<<Pub(3, 42, <<"a">>, 1)>>),
                       R1(<<[c |-> 6, ackall |-> 1]>>), R1(<<Con(7, "s", 0)>>), R1(<<Pub(3, 43, <<"a">>, 1)>>)>>]

(* A burst larger than the queue of a subscriber that reads. *)
Flood(dummy) ==
  LET chan == Of(1..4)
      n == Of(chan..(chan + 4))
      flood(k) == R1([i \in 1..n |-> Pub(3, 100 * k + i, Pick(<< <<"a">>, <<"b">> >>), Pick(<<0, 1, 1, 2>>))])
      w == Of(1..2) = 1
  IN [cfg |-> [chan |-> chan, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> Pick(<<-1, -1, 3>>)], n |-> 9,
      rounds |-> <<R1(<<Con(2, "w", 0), Sub(2, 12, <<Flt(<<"#">>, 1)>>)>>),
                   R1(<<IF w THEN ConW(1, "s", 0, 77) ELSE Con(1, "s", 0), Sub(1, 11, <<Flt(<<"a">>, Of(0..2))>>)>>),
                   R1(<<Con(3, "p", 0)>>), R1(<<Pub(3, 31, <<"a">>, 1)>>), flood(1), R1(<<AckOp(1), AckOp(2)>>), flood(2),
                   R1(<<Con(4, "s", 0)>>), R1(<<Con(5, "w", 0)>>), R1(<<Pub(3, 41, <<"a">>, 1)>>), flood(3),
                   R1(<<Con(6, "s", Of(0..1))>>), R1(<<Pub(3, 42, <<"a">>, 1)>>)>>]

(* Enough messages for the packet ids to wrap around, with some of them unacknowledged. *)
Wrap(dummy) ==
  LET n == Pick(<<65535, 65536, 65530, 66000>>)
      some(k) == R1([i \in 1..Of(2..6) |-> Pub(2, k + i, <<"a">>, 1)])
      bulk(m) == [bulk |-> [pub |-> 2, sub |-> 1, n |-> m, w |-> 500, topic |-> <<"a">>], ops |-> <<>>]
  IN [cfg |-> [chan |-> 1000, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 5,
      rounds |-> <<R1(<<Con(1, "s", 0), Sub(1, 11, <<Flt(<<"a">>, 1)>>)>>), R1(<<Con(2, "p", 0)>>), some(10), R1(<<AckOp(1)>>),
                   some(20)>> \o <<bulk(n)>> \o <<some(30), R1(<<AckOp(1)>>), some(40), R1(<<Fin(1)>>), R1(<<Con(3, "s", 0)>>), some(50),
                   R1(<<AckOp(3)>>), R1(<<Con(4, "s", 0)>>), R1(<<[c |-> 4, ackall |-> 1]>>), R1(<<Con(5, "s", 0)>>), some(60)>>]

(* Clients that say nothing but are sent something, against those that do. *)
Quiet(dummy) ==
  LET lim == Pick(<< <<2, 4, 1>>, <<2, 4, 1>>, <<2, 4, 1>>, <<0, 4, 1>>, <<3, 3, 1>>, <<0, 14, 5000>>, <<2, 100, 5000>>, <<14, 20, 5000>> >>)
      u == lim[3]                                    \* the unit of time
      ka == u * Of(2..4)
      tick(k) ==
        LET extra == CASE Of(1..6) = 1 -> <<PingOp(1)>>
                       [] Of(1..6) = 1 -> <<[c |-> 1, ack |-> 0]>>
                       [] Of(1..6) = 1 -> <<Pub(1, 100 + k, <<"b">>, Of(0..1))>>
                       [] Of(1..12) = 1 -> <<[c |-> 1, raw |-> "c0"]>>
                       [] OTHER -> <<>>
        IN <<R1(<<Pub(2, k, <<"a">>, Of(0..1))>>), R1(extra), R1(<<[adv |-> u * Pick(<<700, 1100, 1600, 2300>>)]>>)>>
      m == Of(3..9)
  IN [cfg |-> [chan |-> 100, minka |-> u * lim[1], maxka |-> u * lim[2], maxexp |-> 300, maxact |-> -1], n |-> 5,
      rounds |-> <<R1(<<Ofs(1, [t |-> "CONNECT", cid |-> "s", clean |-> 0, ka |-> Pick(<<0, ka, ka, 9 * u>>), will |-> [WillFor(5) EXCEPT !.delay = Pick(<<0, 0, 2>>)]]),
                        Sub(1, 11, <<Flt(<<"a">>, Of(0..1))>>), [c |-> 1, noping |-> 1]>>),
                   R1(<<[Con(2, "p", 0) EXCEPT !.p.ka = IF u = 1 THEN 60 ELSE Pick(<<60000, 65535>>)], Sub(2, 12, <<Flt(<<"#">>, 1)>>)>>)>>
                 \o Cat([k \in 1..m |-> tick(k)])
                 \o <<R1(<<Ofs(3, [t |-> "CONNECT", cid |-> "s", clean |-> 0, ka |-> u * Of(1..5)])>>), R1(<<[c |-> 3, noping |-> 1]>>)>>
                 \o Cat([k \in 1..3 |-> <<R1(<<Pub(2, 50 + k, <<"a">>, Of(0..1))>>), R1(<<[adv |-> u * Pick(<<700, 1100, 1600, 3300>>)]>>)>>])
                 \o <<R1(<<[adv |-> u * 7000]>>), R1(<<[Con(4, "s", 0) EXCEPT !.p.ka = 3 * u]>>), R1(<<Pub(2, 60, <<"a">>, 1)>>)>>]

(* Many unacknowledged messages over several connections. *)
Redeliver(dummy) ==
  LET many(k, n) == R1([i \in 1..n |-> Pub(2, k + i, <<"a">>, Pick(<<1, 1, 1, 1, 0>>))])
      again(c) == <<R1(<<IF Of(1..3) = 1 THEN [c |-> c, drop |-> 1] ELSE IF Of(1..2) = 1 THEN Fin(c) ELSE Bye(c)>>), R1(<<Con(c + 1, "s", 0)>>)>>
      acks(c) == R1([i \in 1..Of(1..6) |-> [c |-> c, ack |-> Of(0..20)]])
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 9,
      rounds |-> <<R1(<<Con(2, "p", 0)>>), R1(<<Con(3, "s", 0), Sub(3, 11, <<Flt(<<"a">>, Of(1..2))>>)>>), many(100, Of(3..40)), acks(3)>>
                 \o again(3) \o <<acks(4), many(200, Of(1..10))>> \o again(4) \o <<acks(5)>> \o again(5)
                 \o <<many(300, Of(1..5)), acks(6), R1(<<[c |-> 6, ackall |-> Of({1})]>>)>> \o again(6) \o <<many(400, 3)>>]

(* The same with large numbers: topics and filters of thousands of levels, requests with thousands of filters,
   very long client ids and levels, many sessions. *)
Twice(x, n) == FoldLeft(LAMBDA a, i : a \o a, x, [i \in 1..n |-> i])          \* x, 2^n times
Deep(dummy) ==
  LET n == Pick(<<3000, 12000, 30000, 32000>>)
      k == Of(1..5)
      t == [i \in 1..n |-> IF k = 1 THEN "" ELSE IF k = 2 THEN "a" ELSE IF i % k = 0 THEN "a" ELSE ""]
      j == Of(1..n)
      f == <<t, [i \in 1..n |-> "+"], [t EXCEPT ![j] = "+"], SubSeq(t, 1, j) \o <<"#">>, [t EXCEPT ![n] = "#"], Append(t, "#"),
             [i \in 1..n |-> IF i % 2 = 0 THEN t[i] ELSE "+"], SubSeq(t, 1, n - 1), [t EXCEPT ![j] = "b"], Append(t, "a")>>
      some(c, id) == Sub(c, id, <<Flt(Pick(f), 1), Flt(Pick(f), 0)>>)
      g == Pick(f)
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 5,
      rounds |-> <<R1(<<Con(1, "a", 0), some(1, 11)>>), R1(<<Con(2, "b", 0), Sub(2, 12, <<Flt(g, Of(0..2))>>)>>),
                   R1(<<Ofs(3, [t |-> "CONNECT", cid |-> "c", clean |-> 1, ka |-> 60, will |-> [topic |-> t, pl |-> "w77", qos |-> 1, ret |-> 0, delay |-> 0, props |-> <<>>]])>>),
                   R1(<<Pub(3, 31, t, 1)>>), R1(<<Pub(3, 32, SubSeq(t, 1, n - 1), 0)>>),
                   R1(<<Ofs(2, [t |-> "UNSUBSCRIBE", id |-> 5, filters |-> <<g, Pick(f)>>])>>),
                   R1(<<Pub(1, 33, t, 0)>>), R1(<<[c |-> 3, drop |-> 1]>>), R1(<<Con(4, "d", 1), Sub(4, 41, <<Flt(<<"a">>, 1)>>), Pub(4, 42, <<"a">>, 1)>>)>>]

Wide(dummy) ==
  LET n == Pick(<<60, 200, 600>>)
      k == Of(3..9)
      name(i) == "t" \o ToString(i)
      fs == [i \in 1..n |-> Flt(IF i % k = 0 THEN <<name(i % 7), "#">> ELSE IF i % k = 1 THEN <<name(i), "+">>
                                ELSE IF i % 50 = 2 THEN Pick(BADFILTERS) ELSE <<name(i)>>, i % 3)]
      us == [i \in 1..Of(1..n) |-> IF i % 41 = 3 THEN <<"none">> ELSE fs[Of(1..n)].f]
      ts(b) == R1([i \in 1..30 |-> Pub(2, b + i, IF i % 3 = 0 THEN <<name(Of(1..n)), "x">> ELSE <<name(Of(0..n))>>, 0)])
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 4,
      rounds |-> <<R1(<<Con(1, "a", 0)>>), R1(<<Sub(1, 11, fs)>>), R1(<<Con(2, "b", 0)>>), ts(100),
                   R1(<<Ofs(1, [t |-> "UNSUBSCRIBE", id |-> 12, filters |-> us])>>), ts(200),
                   R1(<<Con(3, "a", 0)>>), ts(300), R1(<<Sub(3, 13, Reverse(fs))>>), ts(400)>>]

Long(dummy) ==
  LET x == Twice(Pick(<<"0123456789abcdef", "fedcba9876543210">>), Pick(<<4, 8, 11>>))
      y == x \o "0"
      z == "1" \o x
      l == Twice(Pick(<<"level/of/a/topic", "ABCDEFGHIJKLMNOP">>), Pick(<<4, 8, 11>>))
      will == [topic |-> <<l, "w">>, pl |-> Pick(<<"w1", "60000*q">>), qos |-> 1, ret |-> 0, delay |-> 0, props |-> Pick(<< <<>>, <<"cd=30000*c">>, <<"ct=30000*c", "up=20000*k:30000*v">> >>)]
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> 8,
      rounds |-> <<R1(<<Con(1, x, 0), Sub(1, 11, <<Flt(<<"a">>, 1), Flt(<<l, "+">>, 1)>>)>>), R1(<<Con(2, y, 0), Sub(2, 12, <<Flt(<<l>>, 0), Flt(<<"#">>, 2)>>)>>),
                   R1(<<[Con(3, z, 1) EXCEPT !.p = @ @@ [will |-> will]]>>),
                   R1(<<Pub(3, 31, <<"a">>, 1), Pub(3, 32, <<l>>, 1), Pub(3, 33, <<l, l>>, 0)>>),
                   R1(<<Con(4, x, 0)>>), R1(<<Pub(2, 21, <<l, "a">>, 1), Pub(2, 22, <<"a">>, 0)>>),
                   R1(<<Con(5, y, 1)>>), R1(<<[c |-> 3, drop |-> 1]>>), R1(<<Pub(4, 41, <<"a">>, 1), Pub(4, 42, <<l>>, 2)>>),
                   R1(<<Bye(4)>>), R1(<<Con(6, x, 0)>>), R1(<<Pub(6, 61, <<"a">>, 1)>>)>>]

Crowd(dummy) ==
  LET n == Pick(<<30, 60, 100>>)
      h == n \div 2
      cid(i) == "s" \o ToString(i)
      pubs(b) == R1([i \in 1..6 |-> Pub(n + 1, b + i, Pick(FEWTOPICS), Of(0..2))])
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> Pick(<<-1, n + 1, n + 2>>)], n |-> n + h + 4,
      rounds |-> [i \in 1..n |-> R1(<<Con(i, cid(i), i % 2), Sub(i, i, <<Flt(Pick(FEWFILTERS), Of(0..2))>>)>>)]
                 \o <<R1(<<Con(n + 1, "p", 0)>>), pubs(100)>>
                 \o <<R1([i \in 1..h |-> CASE i % 3 = 0 -> Bye(i) [] i % 3 = 1 -> Fin(i) [] OTHER -> [c |-> i, ackall |-> 1]]) @@ [seq |-> 1]>>
                 \o <<pubs(200), R1(<<Con(n + h + 2, "new", 0)>>)>>
                 \o [i \in 1..h |-> R1(<<Con(n + 1 + i, cid(i), 0)>>)]
                 \o <<pubs(300), R1(<<Con(n + h + 3, "new2", 0)>>)>>]
Large(dummy) == LET k == Of(1..8) IN CASE k <= 2 -> Deep(0) [] k <= 4 -> Wide(0) [] k <= 7 -> Long(0) [] OTHER -> Crowd(0)

(* Many filters in one tree, each of a client of its own, against all topics of up to three levels. *)
LEVELS == <<"a", "b", "", "$s">>
FLEVELS == <<"a", "b", "", "+">>
ALLTOPICS == [i \in 1..4 |-> <<LEVELS[i]>>]
             \o [i \in 1..16 |-> <<LEVELS[((i - 1) \div 4) + 1], LEVELS[((i - 1) % 4) + 1]>>]
             \o [i \in 1..64 |-> <<LEVELS[((i - 1) \div 16) + 1], LEVELS[(((i - 1) \div 4) % 4) + 1], LEVELS[((i - 1) % 4) + 1]>>]
ALLFILTERS == [i \in 1..4 |-> <<FLEVELS[i]>>]
              \o [i \in 1..16 |-> <<FLEVELS[((i - 1) \div 4) + 1], FLEVELS[((i - 1) % 4) + 1]>>]
              \o [i \in 1..64 |-> <<FLEVELS[((i - 1) \div 16) + 1], FLEVELS[(((i - 1) \div 4) % 4) + 1], FLEVELS[((i - 1) % 4) + 1]>>]
              \o << <<"#">>, <<"$s", "#">>, <<"$s", "a">>, <<"$s", "+">>, <<"$s", "+", "#">> >>
              \o [i \in 1..4 |-> <<FLEVELS[i], "#">>]
              \o [i \in 1..16 |-> <<FLEVELS[((i - 1) \div 4) + 1], FLEVELS[((i - 1) % 4) + 1], "#">>]
MTOPICS == SelectSeq(ALLTOPICS, ValidName)
MFILTERS == SelectSeq(ALLFILTERS, ValidFilter)
Matrix(dummy) ==
  LET n == 20
      p == n + 1
      some(k, len) == [ops |-> [i \in 1..len |-> Pub(p, 100 * k + i, MTOPICS[((k * len + i) % Len(MTOPICS)) + 1], 0)], seq |-> 1]
      all(k) == [j \in 1..4 |-> some(4 * k + j, 21)]
  IN [cfg |-> [chan |-> 100, minka |-> 20, maxka |-> 100, maxexp |-> 300, maxact |-> -1], n |-> n + 1,
      rounds |-> [c \in 1..n |-> R1(<<Con(c, "c" \o ToString(c), 1),
                                       Sub(c, c, <<Flt(Pick(MFILTERS), 0)>> \o IF c > 10 THEN <<Flt(Pick(MFILTERS), 1)>> ELSE <<>>)>>)]
                 \o <<R1(<<Con(p, "p", 1)>>)>> \o all(0)
                 \o [c \in 1..n |-> R1(<<Ofs(c, [t |-> "UNSUBSCRIBE", id |-> 50 + c,
                                                 filters |-> [i \in 1..12 |-> Pick(MFILTERS)]])>>
                                        \o IF c % 3 = 0 THEN <<Sub(c, 60, <<Flt(Pick(MFILTERS), 2)>>)>> ELSE <<>>)]
                 \o all(1)]

(* The same script with other client ids and topic levels, so that nothing depends on what they look like:
   one a prefix or suffix of another, differing in case, with separators and wildcards in ids, long ones. *)
IDFAMS == << <<"dev", "dev-2", "de", "Dev", "v">>, <<"a", "aa", "aaa", "A", "AA">>, <<"id/1", "id", "id/1/", "1", "/">>,
             <<"#", "+", "$", "a/#", "*">>, <<"1", "10", "01", "100", "0">>, <<"ü", "u", "uü", "Ü", "üu">>,
             <<"0123456789012345678901234567890", "012345678901234567890123456789", "1234567890123456789012345678901", "client ", "client">>,
             <<"a", "a ", " a", "a\t", "A">>, <<" ", "  ", "\t", "\n", "   ">>, <<"null", "None", "nil", "none", "undefined">>, <<"..", ".", "%", "%20", "\\">> >>
LEVFAMS == << [x \in {"a", "b", "c"} |-> CASE x = "a" -> "sport" [] x = "b" -> "sports" [] OTHER -> "port"],
              [x \in {"a", "b", "c"} |-> CASE x = "a" -> "1" [] x = "b" -> "10" [] OTHER -> "0"],
              [x \in {"a", "b"} |-> IF x = "a" THEN " " ELSE "x y"],
              [x \in {"a", "b", "c"} |-> CASE x = "a" -> "x" [] x = "b" -> "x " [] OTHER -> " x"],
              [x \in {"a", "b", "A"} |-> CASE x = "a" -> "ä" [] x = "b" -> "a" [] OTHER -> "Ä"],
              [x \in {"a", "b", "aa"} |-> CASE x = "a" -> "b" [] x = "b" -> "$b" [] OTHER -> "bb"],
              [x \in {"a", "b"} |-> IF x = "a" THEN "device_0123456789_0123456789_0123456789_0123456789" ELSE "device_0123456789_0123456789_0123456789_012345678"] >>
IdFam(q) == [x \in {"a", "b", "c", "d", "e"} |-> CASE x = "a" -> q[1] [] x = "b" -> q[2] [] x = "c" -> q[3] [] x = "d" -> q[4] [] OTHER -> q[5]]
NONE == [x \in {} |-> ""]
Via(f, x) == IF x \in DOMAIN f THEN f[x] ELSE x
Levels(f, t) == [i \in 1..Len(t) |-> Via(f, t[i])]
RenP(ids, lv, p) ==
  LET p1 == IF "cid" \in DOMAIN p THEN [p EXCEPT !.cid = Via(ids, @)] ELSE p
      p2 == IF "topic" \in DOMAIN p1 THEN [p1 EXCEPT !.topic = Levels(lv, @)] ELSE p1
      p3 == IF "will" \in DOMAIN p2 THEN [p2 EXCEPT !.will.topic = Levels(lv, @)] ELSE p2
  IN CASE p3.t = "SUBSCRIBE" -> [p3 EXCEPT !.filters = [i \in 1..Len(@) |-> [@[i] EXCEPT !.f = Levels(lv, @)]]]
       [] p3.t = "UNSUBSCRIBE" -> [p3 EXCEPT !.filters = [i \in 1..Len(@) |-> Levels(lv, @[i])]]
       [] OTHER -> p3
RenRound(ids, lv, r0) ==
  LET r == IF "bulk" \in DOMAIN r0 THEN [r0 EXCEPT !.bulk.topic = Levels(lv, @)] ELSE r0
  IN [r EXCEPT !.ops = [i \in 1..Len(@) |-> IF "p" \in DOMAIN @[i] THEN [@[i] EXCEPT !.p = RenP(ids, lv, @)] ELSE @[i]]]
Renamed(script) ==
  LET ids == TLCEval(IF Of(1..2) = 1 THEN NONE ELSE IdFam(Pick(IDFAMS)))
      lv == TLCEval(IF Of(1..2) = 1 THEN NONE ELSE Pick(LEVFAMS))
      tls == TLCEval(IF "TLS" \in DOMAIN IOEnv \/ Of(1..8) = 1 THEN 1 ELSE 0)          \* how the clients connect
  IN [script EXCEPT !.cfg = [tls |-> tls] @@ @, !.rounds = [i \in 1..Len(@) |-> RenRound(ids, lv, @[i])]]

SCENES == {"MATRIX", "BURST", "BURST7", "STORM", "WINDOW", "STALL", "FLOOD", "WRAP", "QUIET", "REDELIVER", "LARGE", "DEEP", "WIDE", "LONG", "CROWD"}
SceneOf(dummy) ==
  CASE Profile \in {"BURST", "BURST7"} -> Burst(0)
    [] Profile = "MATRIX" -> Matrix(0)
    [] Profile = "STORM" -> Storm(0)
    [] Profile = "WINDOW" -> Window(0)
    [] Profile = "STALL" -> Stall(0)
    [] Profile = "FLOOD" -> Flood(0)
    [] Profile = "WRAP" -> Wrap(0)
    [] Profile = "QUIET" -> Quiet(0)
    [] Profile = "LARGE" -> Large(0)
    [] Profile = "DEEP" -> Deep(0)
    [] Profile = "WIDE" -> Wide(0)
    [] Profile = "LONG" -> Long(0)
    [] Profile = "CROWD" -> Crowd(0)
    [] OTHER -> Redeliver(0)
Scene ==
  /\ Profile \in SCENES /\ phase = "body" /\ phase' = "out"
  /\ PrintT(<<"SCRIPT", ToJson(Renamed(SceneOf(mid)))>>)
  /\ UNCHANGED <<cs, seen, mid, rounds, cfg>>

Out == /\ phase = "done" /\ phase' = "out"
       /\ PrintT(<<"SCRIPT", ToJson(Renamed([cfg |-> cfg, n |-> Len(cs), rounds |-> rounds]))>>)
       /\ UNCHANGED <<cs, seen, mid, rounds, cfg>>

Init ==
  /\ cs = <<>> /\ seen = {} /\ mid = 1 /\ rounds = <<>> /\ phase = "body"
  /\ cfg \in {[chan |-> 100,
               minka |-> IF Profile = "B11" THEN 2 ELSE IF k = 5 THEN 65536 ELSE IF k = 6 THEN 0 ELSE 20,
               maxka |-> IF Profile = "B11" THEN 4 ELSE IF k = 5 THEN 90000 ELSE IF k = 6 THEN 65556 ELSE 100,
               maxexp |-> IF k = 6 THEN -2 ELSE 300,
               maxact |-> IF Profile = "B13" THEN k ELSE -1] :
            k \in CASE Profile = "B13" -> 0..4 [] Profile = "B12" -> {0, 5, 6} [] OTHER -> {0}}
Next == IF Profile \in SCENES THEN Scene ELSE Body \/ Stutter \/ Audit \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
