----------------------------- MODULE ClientGen -----------------------------
(* Generates scripts for the client driver: what a broker and an application do, in rounds. The state is an
   abstraction of Client's, just enough to choose operations that are meaningful in it; operations such as
   "acknowledge the third packet that waits for it" are resolved by the driver. Run with TLC's simulator;
   every behaviour prints one script. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Pick(q) == q[RandomElement(1..Len(q))]
Of(S) == RandomElement(S)
Profile == IOEnv.PROFILE
DEPTH == atoi(IOEnv.DEPTH)
Is(S) == Profile \in S

VARIABLES mode,      \* "off", "wait", "up", "ended", "done", "out"
          cfg,       \* of the client: [auto, autoid, filt, again]
          m,         \* numbers messages
          starts, rounds
vars == <<mode, cfg, m, starts, rounds>>

NO == [x \in {} |-> 0]
Field(name, n, q) == IF Of(1..n) = 1 THEN name :> Pick(q) ELSE NO

----------------------------------------------------------------------------
TOPICS == << <<"a">>, <<"a", "b">>, <<"sensors", "1", "temp">>, <<"", "x">>, <<"ü">>, <<"$SYS", "a">> >>
PAYLOADS == << "", "x", "hello", "0x00ff", "0xc328", "200*p", "5000*q", "ünï" >>
PROPLISTS == << <<>>, <<>>, <<>>, <<"ct=text/plain">>, <<"mei=60">>, <<"pfi=1">>, <<"rt=re/ply">>, <<"up=k:v">>,
                <<"ct=x", "mei=4294967295", "pfi=1", "rt=r", "up=a:1", "up=b:2">> >>
Pl(n) == IF Of(1..6) = 1 THEN Pick(PAYLOADS) ELSE "m" \o ToString(n)

Qos(dummy) == CASE Is({"K01", "K03", "K08"}) -> Pick(<<0, 1, 1, 2, 2>>)
                [] Is({"K02", "K05"}) -> Pick(<<0, 1, 1, 2, 2, 2>>)
                [] OTHER -> Of(0..2)
AppId(c, n, q) == IF q = 0 THEN 0
                  ELSE IF c.autoid = 0 THEN (IF Of(1..25) = 1 THEN Pick(<<-1, 0, 3, 7>>) ELSE IF Of(1..4) = 1 THEN Of(1..60000) ELSE 1000 + n)
                  ELSE IF Of(1..8) = 1 THEN Pick(<<1000 + n, 1000 + n, 20000 + n, 0, 1, 2, 3, 5>>) ELSE -1
Publish(c, n, q) == [t |-> "PUBLISH", topic |-> Pick(TOPICS), qos |-> q, dup |-> 0, ret |-> Pick(<<0, 0, 0, 1>>),
                     id |-> AppId(c, n, q), pl |-> Pl(n), props |-> Pick(PROPLISTS)]
AppPub(c, n) == LET q == Qos(0) IN [a |-> Publish(c, n, q)]
BPub(n, q) == [b |-> [t |-> "PUBLISH", topic |-> Pick(TOPICS), qos |-> q, dup |-> 0, ret |-> Of(0..1),
                      id |-> IF q = 0 THEN 0 ELSE -1, pl |-> Pl(n), props |-> Pick(PROPLISTS)]]
AppSub(n) == [a |-> [t |-> "SUBSCRIBE", id |-> 500 + n, filters |-> <<[f |-> <<"a", "#">>, qos |-> Of(0..2), nl |-> 0, rap |-> 0, rh |-> 0]>>, props |-> <<>>]]
AppHelp(n) == LET q == TLCEval(Of(0..2))
                  f == TLCEval(Pick(<< << <<"a", "#">> >>, << <<"a">>, <<"b", "+">> >>, << <<"$share", "g", "t">>, <<"ü">>, <<"x", "">> >> >>))
              IN [help |-> 1, a |-> [t |-> "SUBSCRIBE", id |-> 700 + n, filters |-> [i \in 1..Len(f) |-> [f |-> f[i], qos |-> q, nl |-> 0, rap |-> 0, rh |-> 0]], props |-> <<>>]]
AppUnsub(n) == [a |-> [t |-> "UNSUBSCRIBE", id |-> 500 + n, filters |-> << <<"a", "#">> >>, props |-> <<>>]]
Back(k) == [back |-> k, n |-> Pick(<<1, 1, 2, 5>>)]
ACKPROPS == <<<<"rs=why">>, <<"up=k:v">>, <<"rs=not now", "up=a:1", "up=a:2">>>>
BackRc(k) == [back |-> k, n |-> 1, rc |-> Pick(<<0, 16, 128, 135, 151>>)] @@ Field("props", 4, ACKPROPS)
Aack(k) == [aack |-> k, n |-> Pick(<<1, 1, 2, 4>>)]
AackRc(k) == [aack |-> k, n |-> 1, rc |-> Pick(<<0, 16, 128, 131>>)] @@ Field("props", 4, ACKPROPS)
BrelRc(k) == [brel |-> k, rc |-> Pick(<<0, 146>>)] @@ Field("props", 4, ACKPROPS)
(* an acknowledgement of another kind than the one that is due *)
KINDS == <<"PUBACK", "PUBREC", "PUBCOMP", "PUBCOMP", "PUBREL">>
BackAs(k) == [back |-> k, n |-> 1, as |-> Pick(KINDS)]
AackAs(k) == [aack |-> k, n |-> 1, as |-> Pick(KINDS)]
Brel(k) == [brel |-> k]
BrelKeep(k) == [brel |-> k, keep |-> 1]
Bdup(k) == [bdup |-> k]
BdupLate(k) == [bdup |-> k, late |-> 1]
Bearly(k) == [bearly |-> k]
Bold(k) == [bold |-> k, n |-> Pick(<<1, 2, 5, 9>>)] @@ Field("late", 5, <<1>>)
Gap == [gap |-> 1]
Adv(ms) == [adv |-> ms]
Ack(t, id) == [b |-> [t |-> t, id |-> id, rc |-> 0, props |-> <<>>]]
Connack(sp, rc) == [t |-> "CONNACK", sp |-> sp, rc |-> rc, props |-> <<>>]
RAW == << "3606000161000178", "3003000561", "60030001", "d00101", "400100", "20020000", "900400010005", "f000", "31ffffffff7f", "0000",
          "3405000161000000", "40050001000102" >>

(* Ways a connection ends. *)
EndOp(c) ==
  CASE Is({"K08"}) -> Pick(<<[bfin |-> 1], [bfin |-> 1], [bfin |-> 1], [stop |-> 1], [brst |-> 1],
                             Bearly(Of(0..3)), [bfin |-> 1, cut |-> [BPub(9, 1).b EXCEPT !.id = 9], at |-> 3], [b |-> [t |-> "DISCONNECT", rc |-> 139, props |-> <<>>]]>>)
    [] Is({"K02", "K05", "K09"}) /\ Of(1..4) = 1 -> Bearly(Of(0..3))
    [] OTHER -> CASE Of(1..8) = 1 -> [stop |-> 1]
                  [] Of(1..7) = 1 -> [bfin |-> 1]
                  [] Of(1..6) = 1 -> [bfin |-> 1, cut |-> [t |-> "PUBLISH", topic |-> <<"a">>, qos |-> 1, dup |-> 0, ret |-> 0, id |-> 9, pl |-> "cut", props |-> <<>>], at |-> Of(0..20)]
                  [] Of(1..5) = 1 -> [b |-> [t |-> "DISCONNECT", rc |-> Pick(<<0, 129, 139, 142>>), props |-> <<>>]]
                  [] Of(1..4) = 1 -> [braw |-> Pick(RAW), is |-> "GARBAGE"]
                  [] Of(1..3) = 1 -> IF Is({"K09"}) /\ Of(1..4) > 1 THEN BackAs(Of(0..3)) ELSE Ack(Pick(<<"PUBACK", "PUBREC", "PUBCOMP">>), Pick(<<60001, 60001, 60001, 0>>))
                  [] Of(1..2) = 1 -> [a |-> [t |-> "DISCONNECT", rc |-> Pick(<<0, 4>>), props |-> <<>>]]
                  [] OTHER -> [brst |-> 1]

----------------------------------------------------------------------------
(* Configurations and first answers *)
FILTS == << <<<<>>, <<>>>>, << <<"PUBLISH">>, <<>> >>, << <<"PUBACK", "PUBREC", "PUBCOMP">>, <<"SUBACK", "UNSUBACK">> >>, << <<"PUBLISH", "PUBREL">>, <<"PINGRESP", "PUBACK">> >> >>
WILLS == << [topic |-> <<"w">>, pl |-> "gone", qos |-> 0, ret |-> 0, delay |-> 0, props |-> <<>>],
            [topic |-> <<"w", "x">>, pl |-> "", qos |-> 2, ret |-> 1, delay |-> 5, props |-> <<>>],
            [topic |-> <<"w", "ü">>, pl |-> "0x00ff", qos |-> 1, ret |-> 0, delay |-> 100000, props |-> <<"ct=text", "mei=9", "rt=r">>],
            [topic |-> <<"w">>, pl |-> "3000*z", qos |-> 1, ret |-> 1, delay |-> 1, props |-> <<"mei=0">>] >>
Start(first) ==
  LET manual == TLCEval(IF Is({"K05"}) THEN TRUE ELSE Is({"K04", "K08", "K09", "K03"}) /\ Of(1..4) = 1)
      auto == TLCEval(IF first THEN (IF manual THEN 0 ELSE 1) ELSE cfg.auto)
      autoid == IF first THEN (IF Of(1..6) = 1 THEN 0 ELSE 1) ELSE cfg.autoid
      filt == IF Is({"K04", "K09"}) \/ Of(1..6) = 1 THEN Pick(FILTS) ELSE FILTS[1]
      resume == TLCEval(IF first THEN 0 ELSE IF Is({"K08"}) THEN Pick(<<0, 1, 1, 1, 1, 1, 1, 1>>) ELSE IF Is({"K02", "K05"}) THEN Pick(<<0, 1, 1, 1>>) ELSE Of(0..1))
  IN [resume |-> resume, filt |-> filt]
     @@ (IF first THEN ("auto" :> auto) @@ ("autoid" :> autoid)
         ELSE IF resume = 1 THEN NO ELSE ("auto" :> cfg.auto) @@ ("autoid" :> cfg.autoid))
     @@ (IF Is({"K06"}) THEN Field("cid", 2, <<"", "", "c", "client/#", "ünï", "a-rather-long-client-identifier-of-more-than-23-bytes">>)
                             @@ Field("ka", 2, <<30, 31, 60, 65535, 65536, 100000, 29, 1, 0, 100>>)
                             @@ Field("sei", 2, <<0, 1, 600, 86400, 2147483647, -2, -3>>)
                             @@ Field("rm", 2, <<1, 2, 10, 65534, 65535>>)
                             @@ Field("clean", 2, <<0, 1>>)
                             @@ (IF Of(1..2) = 1 THEN ("user" :> Pick(<<"u", "user name", "ü">>)) @@ ("pass" :> Pick(<<"p", "päss", "">>)) ELSE NO)
                             @@ Field("will", 2, WILLS)
                             @@ Field("mcw", 2, <<100, 1000, 20000>>)
         ELSE Field("clean", 2, <<0, 1>>)
              @@ (IF Is({"K08"}) THEN Field("rm", 4, <<1, 2, 4>>) ELSE IF Is({"K03"}) THEN Field("rm", 1, <<1, 1, 2, 3, 5, 20>>)
                  ELSE IF Is({"K05", "K02"}) THEN Field("rm", 3, <<1, 2, 3, 10>>) ELSE NO)
              @@ (IF Is({"K07"}) THEN Field("ka", 2, <<30, 31, 45>>) @@ Field("kax", 3, <<500, 999>>) @@ Field("kaon", 5, <<0>>) ELSE NO))
     @@ (IF Is({"K04", "K07"}) THEN Field("pong", 2, <<0, 1>>) ELSE Field("pong", 8, <<1>>))
     @@ (IF Is({"K04"}) THEN Field("chan", 1, <<1, 1, 2, 3, 5, 128>>) @@ Field("fcap", 1, <<1, 2, 64>>) ELSE Field("chan", 5, <<1, 2, 200>>))
     @@ (IF Is({"K09", "K04"}) THEN Field("mps", 4, <<64, 200, 5010>>) ELSE NO)
     @@ CASE ~Is({"K06"}) -> NO [] Of(1..12) = 1 -> "refuse" :> Of(1..2) [] OTHER -> Field("try", 5, <<300, 3000, 8000>>)

ConnackOf(first, resumed) ==
  Connack(IF Is({"K08"}) /\ resumed THEN Pick(<<0, 1, 1, 1, 1>>) ELSE IF resumed THEN (IF Is({"K02", "K05"}) THEN Pick(<<0, 1, 1, 1>>) ELSE Of(0..1)) ELSE Pick(<<0, 0, 0, 1>>), 0)
  @@ (IF Is({"K03"}) THEN Field("rm", 1, <<1, 1, 2, 3, 5, 10>>)
      ELSE IF Is({"K08"}) THEN Field("rm", 2, <<1, 2, 3, 10>>)
      ELSE IF Is({"K01", "K05"}) THEN Field("rm", 3, <<1, 2, 4, 10>>) ELSE Field("rm", 6, <<1, 3, 65535>>))
  @@ (IF Is({"K07"}) THEN Field("ska", 2, <<0, 1, 2, 5, 5, 20, 90>>) ELSE IF Is({"K04"}) THEN Field("ska", 2, <<2, 5>>) ELSE Field("ska", 6, <<0, 5, 40, 65535>>))
  @@ Field("sei", 5, <<0, 30, 5000, -2>>)
  @@ (IF Is({"K06"}) THEN Field("aci", 2, <<"given", "x">>) ELSE NO)

(* In the round of a start: what the broker answers. *)
Firsts(first, resumed) ==
  IF Is({"K06"}) /\ Of(1..2) = 1
  THEN CASE Of(1..10) = 1 -> [o |-> <<[bfin |-> 1]>>, up |-> FALSE]
         [] Of(1..9) = 1 -> [o |-> <<[b |-> Connack(0, Pick(<<128, 133, 135, 137, 151>>))]>>, up |-> FALSE]
         [] Of(1..8) = 1 -> [o |-> <<[b |-> Connack(Of(0..1), Pick(<<132, 134, 138>>))]>>, up |-> FALSE]
         [] Of(1..7) = 1 -> [o |-> <<BPub(1, Of(0..1))>>, up |-> FALSE]
         [] Of(1..6) = 1 -> [o |-> <<[b |-> [t |-> "PINGRESP"]]>>, up |-> FALSE]
         [] Of(1..5) = 1 -> [o |-> <<Adv(Pick(<<50, 100, 900, 1000, 4900, 5000, 21000>>))>>, up |-> FALSE]
         [] Of(1..4) = 1 -> [o |-> <<[b |-> [t |-> "DISCONNECT", rc |-> Pick(<<0, 137>>), props |-> <<>>]]>>, up |-> FALSE]
         [] Of(1..3) = 1 -> [o |-> <<[braw |-> Pick(RAW), is |-> "GARBAGE"]>>, up |-> FALSE]
         [] Of(1..2) = 1 -> [o |-> <<[bfin |-> 1, cut |-> Connack(0, 0), at |-> Of(0..4)]>>, up |-> FALSE]
         [] OTHER -> [o |-> <<Adv(Pick(<<100, 500, 900, 2500>>)), [b |-> ConnackOf(first, resumed)]>>, up |-> TRUE]
  ELSE [o |-> <<[b |-> ConnackOf(first, resumed)]>> \o (IF resumed /\ Of(1..3) > 1 THEN <<Bold(Of(0..3))>> ELSE <<>>), up |-> TRUE]

----------------------------------------------------------------------------
(* Operations of a round of a connected client *)
Opn(n, c) ==
  LET k == TLCEval(Of(0..6)) IN
  CASE Is({"K02", "K05", "K08"}) /\ starts > 1 /\ Of(1..12) = 1 -> <<Bold(k)>>
    [] Is({"K01"}) ->
         CASE Of(1..5) <= 2 -> <<AppPub(c, n)>>
           [] Of(1..3) <= 2 -> <<Pick(<<Back(k), Back(k), BackRc(k), Back(0)>>)>>
           [] Of(1..4) = 1 -> <<BPub(n, Of(0..2))>>
           [] Of(1..2) = 1 -> <<Gap>>
           [] OTHER -> <<Pick(<<AppSub(n), AppUnsub(n), Brel(k)>>)>>
    [] Is({"K02"}) ->
         CASE Of(1..5) <= 2 -> <<BPub(n, Qos(0))>>
           [] Of(1..3) = 1 -> <<Pick(<<Brel(k), Brel(k), BrelRc(k), BrelKeep(k)>>)>>
           [] Of(1..3) = 1 -> <<Pick(<<Bdup(k), BdupLate(k), BdupLate(k)>>)>>
           [] Of(1..3) = 1 -> <<Gap>>
           [] OTHER -> <<Pick(<<AppPub(c, n), Back(k), Ack("PUBREL", 60002), [aping |-> 1]>>)>>
    [] Is({"K03"}) ->
         CASE Of(1..5) <= 2 -> <<AppPub(c, n), AppPub(c, n + 100)>>
           [] Of(1..3) = 1 -> <<Pick(<<Back(k), Back(k), BackRc(k)>>)>>
           [] Of(1..4) = 1 -> <<BPub(n, Of(1..2))>>
           [] Of(1..12) = 1 -> <<BPub(n, Of(1..2)) @@ [over |-> 1]>>
           [] Of(1..3) = 1 -> <<Pick(<<Brel(k), Bdup(k), Aack(k)>>)>>
           [] Of(1..2) = 1 -> <<Pick(<<AppSub(n), [aping |-> 1]>>)>>
           [] OTHER -> <<Gap>>
    [] Is({"K04"}) ->
         CASE Of(1..4) = 1 -> <<BPub(n, Of(0..2)), BPub(n + 100, Of(0..2))>>
           [] Of(1..5) = 1 -> <<Pick(<<[live |-> 1, on |-> 0], [live |-> 2, on |-> 0], [live |-> 3, on |-> 0], [live |-> 1, on |-> 1], [live |-> 2, on |-> 1]>>)>>
           [] Of(1..5) = 1 -> <<[take |-> Of(1..3), n |-> Of(1..4)]>>
           [] Of(1..4) = 1 -> <<Pick(<<AppPub(c, n), AppSub(n), [aping |-> 1], AppUnsub(n), AppHelp(n)>>)>>
           [] Of(1..3) = 1 -> <<Pick(<<Back(k), Back(0)>>)>>
           [] Of(1..4) = 1 -> <<Pick(<<Brel(k), Bdup(k)>>)>>
           [] Of(1..4) = 1 -> <<Adv(Pick(<<100, 2000, 3000, 6000>>))>>
           [] Of(1..3) = 1 -> <<[b |-> [t |-> "PINGRESP"]]>>
           [] OTHER -> <<Gap>>
    [] Is({"K05"}) ->
         CASE Of(1..4) = 1 -> <<BPub(n, Qos(0))>>
           [] Of(1..3) = 1 -> <<Pick(<<Aack(k), Aack(k), Aack(0), AackRc(k)>>)>>
           [] Of(1..5) = 1 -> <<AppPub(c, n)>>
           [] Of(1..3) = 1 -> <<Pick(<<Back(k), Back(k), BackRc(k)>>)>>
           [] Of(1..3) = 1 -> <<Pick(<<Brel(k), BrelRc(k), BrelKeep(k), Bdup(k)>>)>>
           [] Of(1..2) = 1 -> <<Gap>>
           [] Of(1..4) = 1 -> <<BrelKeep(k), Gap, BrelKeep(k), Gap, BdupLate(k), Gap, BdupLate(k + 1)>>
           [] OTHER -> <<Pick(<<[a |-> [t |-> "PUBACK", id |-> 60003, rc |-> 0, props |-> <<>>]], AppSub(n), [aping |-> 1]>>)>>
    [] Is({"K07"}) ->
         CASE Of(1..3) = 1 -> <<Adv(Pick(<<100, 900, 1000, 1900, 4900, 5000, 5100, 29000, 31000, 62000>>))>>
           [] Of(1..5) = 1 -> <<BPub(n, Of(0..2))>>
           [] Of(1..4) = 1 -> <<AppPub(c, n)>>
           [] Of(1..3) = 1 -> <<Pick(<<Back(k), [b |-> [t |-> "PINGRESP"]], AppSub(n), [aping |-> 1]>>)>>
           [] OTHER -> <<Gap>>
    [] Is({"K06"}) -> Pick(<< <<Gap>>, <<AppPub(c, n)>>, <<BPub(n, 1)>>, <<[aping |-> 1]>>, <<Back(k)>>, <<Adv(5000)>>, <<[twice |-> Of(0..1)], AppPub(c, n)>>, <<AppHelp(n)>> >>)
    [] OTHER ->
         CASE Of(1..3) = 1 -> <<AppPub(c, n)>>
           [] Of(1..3) = 1 -> <<Pick(<<Back(k), Back(k), BackRc(k)>>)>>
           [] Of(1..3) = 1 -> <<BPub(n, Of(0..2))>>
           [] Of(1..3) = 1 -> <<Pick(<<Brel(k), Bdup(k)>>)>>
           [] Of(1..3) = 1 -> <<Pick(<<Aack(k), Aack(k), Aack(k), AackAs(k)>>)>>
           [] Of(1..6) = 1 -> <<BackAs(k)>>
           [] Of(1..3) = 1 -> <<AppSub(n)>>
           [] OTHER -> <<Gap>>
RECURSIVE Ops(_, _, _)
Ops(k, n, c) == IF k = 0 THEN <<>> ELSE Opn(n, c) \o Ops(k - 1, n + 1, c)

EndChance == CASE Is({"K08"}) -> 4 [] Is({"K05"}) -> 6 [] Is({"K09"}) -> 4 [] Is({"K06"}) -> 3 [] OTHER -> 14

(* Whether the connection uses TLS; only then the broker can take the connection (refuse = 2) and answer nothing. *)
Secured(rs) == IF "TLS" \in DOMAIN IOEnv \/ (\E i \in 1..Len(rs) : "start" \in DOMAIN rs[i] /\ "refuse" \in DOMAIN rs[i].start /\ rs[i].start.refuse = 2)
                  \/ Of(1..8) = 1 THEN 1 ELSE 0
Begin ==
  /\ mode \in {"off", "ended"}
  /\ \E s \in {Start(mode = "off")} : \E f \in {Firsts(mode = "off", s.resume = 1)} : \E again \in {Of(0..1) = 1} :
     LET early == IF Of(1..6) = 1 THEN Ops(1, m + 700, cfg) ELSE <<>>
         late == Ops(Pick(<<0, 1, 2, 4>>), m + 800, cfg)
         ops == SelectSeq(early, LAMBDA o : "a" \in DOMAIN o) \o f.o \o IF f.up THEN late ELSE <<>>
         g == IF "auto" \in DOMAIN s THEN [auto |-> s.auto, autoid |-> s.autoid] ELSE cfg
     IN /\ cfg' = g
        /\ IF "refuse" \in DOMAIN s
           THEN /\ rounds' = rounds \o <<[start |-> s, ops |-> <<>>]>>
                               \o IF again /\ ("ka" \in DOMAIN s => s.ka >= 30)
                                  THEN <<[start |-> [resume |-> 0, again |-> 1, filt |-> s.filt], ops |-> ops]>> ELSE <<>>
                /\ mode' = IF again /\ f.up THEN "up" ELSE "done"
           ELSE /\ rounds' = Append(rounds, [start |-> s, ops |-> ops])
                /\ mode' = IF "try" \in DOMAIN s /\ ~f.up THEN "done?" ELSE IF ("ka" \in DOMAIN s /\ s.ka < 30) THEN "done" ELSE IF f.up THEN "up" ELSE "wait"
        /\ starts' = starts + 1
        /\ m' = m + 1

(* Not connected: perhaps it still waits. *)
Wait ==
  /\ mode \in {"wait", "done?"}
  /\ rounds' = rounds \o <<[ops |-> <<Adv(Pick(<<100, 900, 5000, 20000>>))>>], [ops |-> <<Adv(21000)>>]>>
  /\ mode' = IF mode = "wait" /\ starts < 3 THEN "ended" ELSE "done"
  /\ UNCHANGED <<cfg, starts>> /\ m' = m + 1

Body ==
  /\ mode = "up" /\ Len(rounds) < DEPTH
  /\ \E ends \in {Of(1..EndChance) = 1} : \E e \in {EndOp(cfg)} : \E o \in {Ops(Pick(<<1, 2, 3, 5, 8>>), 10 * m, cfg)} :
     LET alone == "brst" \in DOMAIN e
         e2 == IF "bearly" \in DOMAIN e THEN <<BPub(10 * m + 8, Pick(<<1, 2, 2>>)), Gap, e>> ELSE <<e>>
         more == IF alone THEN <<>> ELSE IF Of(1..4) = 1 THEN Ops(1, 10 * m + 9, cfg) ELSE <<>>
     IN /\ rounds' = rounds \o (IF ends THEN (IF alone THEN <<[ops |-> o], [ops |-> <<e>>]>>
                                              ELSE <<[ops |-> o \o e2 \o more]>>)
                                ELSE <<[ops |-> o]>>)
        /\ mode' = IF ends THEN "ended" ELSE "up"
  /\ m' = m + 1 /\ UNCHANGED <<cfg, starts>>

(* A consumer goes away; a later client may take over what it did not take. *)
Close ==
  /\ mode = "up" /\ Is({"K09", "K04", "K02", "K08"}) /\ Len(rounds) > 1 /\ Of(1..12) = 1
  /\ \E resumes \in {starts < 4 /\ Of(1..3) > 1} :
     LET k == TLCEval(Of(1..3))
         on == <<[ops |-> <<BPub(1, 0), BPub(2, 1), [aping |-> 1], BPub(3, Of(0..2))>>], [ops |-> <<Back(0), BPub(3, 2)>>]>>
     IN /\ rounds' = rounds \o <<[ops |-> <<[close |-> k]>>]>> \o (IF Of(1..3) = 1 THEN SubSeq(on, 2, 2) ELSE on)
                          \o (IF resumes THEN <<[ops |-> <<[stop |-> 1]>>]>> ELSE <<>>)
        /\ mode' = IF resumes THEN "ended" ELSE "done"
  /\ m' = m + 1 /\ UNCHANGED <<cfg, starts>>

(* The end: everything is answered, released and taken, so that what is left shows. *)
Finish ==
  /\ \/ mode = "up" /\ Len(rounds) >= DEPTH
     \/ mode = "ended" /\ (Len(rounds) >= DEPTH \/ starts > 6)
     \/ mode = "done"
  /\ rounds' = rounds \o <<[ops |-> <<[live |-> 1, on |-> 1], [live |-> 2, on |-> 1], [live |-> 3, on |-> 1], Gap, [back |-> 0, n |-> 30], Gap, [back |-> 0, n |-> 30]>>],
                           [ops |-> <<[aack |-> 0, n |-> 30], Gap, [back |-> 0, n |-> 30], [brel |-> 0], [brel |-> 0], [brel |-> 0], Gap, [aack |-> 0, n |-> 9]>>],
                           [ops |-> <<[stop |-> 1]>>]>>
  /\ mode' = "print" /\ UNCHANGED <<cfg, m, starts>>

----------------------------------------------------------------------------
(* Packet ids that wrap around, next to unfinished exchanges. *)
Wrap(dummy) ==
  LET c == [auto |-> 1, autoid |-> 1]
      pub(q) == [a |-> [t |-> "PUBLISH", topic |-> <<"a">>, qos |-> q, dup |-> 0, ret |-> 0, id |-> -1, pl |-> "k", props |-> <<>>]]
      pubid(i) == [a |-> [t |-> "PUBLISH", topic |-> <<"a">>, qos |-> 1, dup |-> 0, ret |-> 0, id |-> i, pl |-> "k", props |-> <<>>]]
  IN [chunk |-> 0, rounds |->
       << [start |-> [resume |-> 0, filt |-> FILTS[1], auto |-> 1, autoid |-> 1, clean |-> 1], ops |-> <<[b |-> Connack(0, 0)]>>],
          [ops |-> <<pub(1), pub(2), pub(1), pub(2), Gap, Back(1), Gap>> \o <<pubid(Of(100..60000)), pubid(Of(60001..65534)), pubid(65535)>>],
          [ops |-> <<[bulk |-> Of(65400..66200)]>>],
          [ops |-> <<pub(1), pub(2), pub(2)>>],
          [ops |-> <<[back |-> 0, n |-> 20], Gap, [back |-> 0, n |-> 20]>>],
          [ops |-> <<pub(1), pub(1), Gap, [back |-> 0, n |-> 20]>>],
          [ops |-> <<[stop |-> 1]>>] >>]

(* Many publishes and a small receive maximum: all wait their turn. *)
Burst(dummy) ==
  LET rm == TLCEval(Of(1..6))
      auto == TLCEval(Pick(<<1, 1, 0>>))
      pub(i, q) == [a |-> [t |-> "PUBLISH", topic |-> <<"a">>, qos |-> q, dup |-> 0, ret |-> 0, id |-> IF q = 0 THEN 0 ELSE -1, pl |-> "b" \o ToString(i), props |-> <<>>]]
      turn(k) == [ops |-> [i \in 1..8 |-> CASE auto = 0 /\ Of(1..2) = 1 -> Aack(Of(0..3)) [] Of(1..6) = 1 -> BackRc(Of(0..5)) [] OTHER -> Back(Of(0..5))]]
  IN [chunk |-> Pick(<<0, 0, 3>>), rounds |->
       << [start |-> [resume |-> 0, filt |-> FILTS[1], auto |-> auto, autoid |-> 1, clean |-> 1, rm |-> rm],
           ops |-> <<[b |-> Connack(0, 0) @@ [rm |-> rm]]>>],
          [ops |-> [i \in 1..30 |-> pub(i, Pick(<<1, 1, 2, 2, 0>>))]] >>
       \o [k \in 1..10 |-> turn(k)]
       \o << [ops |-> [i \in 1..20 |-> pub(50 + i, Of(0..2))]] >>
       \o [k \in 1..10 |-> turn(k)] \o <<[ops |-> <<[stop |-> 1]>>]>>]

SCENES == {"WRAP", "BURST"}
Scene ==
  /\ Profile \in SCENES /\ mode = "off" /\ mode' = "out"
  /\ PrintT(<<"SCRIPT", ToJson(IF Profile = "WRAP" THEN Wrap(m) ELSE Burst(m))>>)
  /\ UNCHANGED <<cfg, m, starts, rounds>>

Out == /\ mode = "print" /\ mode' = "out"
       /\ PrintT(<<"SCRIPT", ToJson([chunk |-> Pick(<<0, 0, 0, 0, 1, 2, 3, 7>>), tls |-> Secured(rounds), rounds |-> rounds])>>)
       /\ UNCHANGED <<cfg, m, starts, rounds>>
Init == mode = "off" /\ cfg = [auto |-> 1, autoid |-> 1] /\ m = 1 /\ starts = 0 /\ rounds = <<>>
Next == IF Profile \in SCENES THEN Scene ELSE Begin \/ Wait \/ Body \/ Close \/ Finish \/ Out
Spec == Init /\ [][Next]_vars
=============================================================================
