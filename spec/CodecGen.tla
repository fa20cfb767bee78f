----------------------------- MODULE CodecGen -----------------------------
(* Generates calls of the encoder and the decoder: packets of every type with chosen or random fields, sizes
   at the limits of the length fields, and byte sequences: encoded packets cut, damaged, joined. *)
EXTENDS Codec, Json, IOUtils, Randomization

Pick(q) == q[RandomElement(1..Len(q))]
Of(S) == RandomElement(S)
Once(n) == Of(1..n) = 1
(* f of one random value *)
With(v, f(_)) == CHOOSE y \in {f(x) : x \in {v}} : TRUE
Profile == IOEnv.PROFILE
DEPTH == atoi(IOEnv.DEPTH)
VARIABLE done

----------------------------------------------------------------------------
Ascii(n) == [i \in 1..n |-> Of(97..122)]
UTF == << <<195, 169>>, <<230, 151, 165, 230, 156, 172>>, <<240, 159, 142, 137>>, <<244, 143, 191, 191>>, <<237, 159, 191>>, <<238, 128, 128>>,
          <<194, 128>>, <<224, 160, 128>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<127>>, <<1>>, <<36, 47, 43, 35>> >>
Text(d) == CASE Once(6) -> <<>> [] Once(4) -> Pick(UTF) [] Once(4) -> Ascii(1) \o Pick(UTF) \o Ascii(2)
             [] Once(12) -> <<60>> \o Run(120, Of(120..140)) \o <<62>> [] OTHER -> Ascii(Of(1..6))
Word(d) == IF Once(5) THEN Pick(UTF) ELSE Ascii(Of(1..5))
Bin(d) == CASE Once(5) -> <<>> [] Once(3) -> [i \in 1..Of(1..5) |-> Of(0..255)] [] Once(8) -> <<0>> \o Run(255, Of(100..150)) \o <<1>> [] OTHER -> Ascii(Of(1..8))
Some(d) == IF Once(3) THEN [i \in 1..Of(1..5) |-> Of(0..255)] ELSE Ascii(Of(1..8))
Num16(d) == Pick(<<0, 1, 2, 60, 127, 128, 255, 256, 257, 32768, 65534, 65535>>)
Nz16(d) == Pick(<<1, 2, 60, 127, 128, 255, 256, 257, 32768, 65534, 65535>>)
Num32(d) == Pick(<< <<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>>, <<258, 772>> >>)
Nz32(d) == Pick(<< <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>>, <<258, 772>> >>)
Vbis == <<1, 2, 127, 128, 129, 255, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455>>
Value(id) == CASE id \in BOOLS -> <<Of(0..1)>>
               [] PropType[id] = "u16" -> <<IF id \in NONZERO THEN Nz16(0) ELSE Num16(0)>>
               [] PropType[id] = "u32" -> IF id \in NONZERO THEN Nz32(0) ELSE Num32(0)
               [] PropType[id] = "vbi" -> <<Pick(Vbis)>>
               [] PropType[id] = "str" -> Text(0)
               [] PropType[id] = "bin" -> Some(0)
User(d) == <<38, IF Once(2) THEN <<97>> ELSE Word(0), Text(0)>>
Prop(id) == IF id = 38 THEN User(0) ELSE <<id, Value(id)>>
(* all, none, one or some of the properties of t *)
PropsOf(t) ==
  With(LET n == Cardinality(Allowed[t]) IN
       IF n = 0 \/ t \in ACKS THEN {} ELSE
       CASE Once(6) -> {} [] Once(5) -> Allowed[t] [] Once(4) -> {Of(Allowed[t])} [] OTHER -> {id \in Allowed[t] : Once(3)},
       LAMBDA S : With(SetToSeq(S), LAMBDA q : [i \in 1..Len(q) |-> Prop(q[i])] \o (IF 38 \in S THEN [i \in 1..Of(0..3) |-> User(0)] ELSE <<>>)))
Rc(t) == IF Once(2) THEN 0 ELSE Of(ReasonsOf[t])
RcList(t, n) == [i \in 1..n |-> Of(ReasonsOf[t])]
Will(d) == [props |-> PropsOf(WILL), topic |-> Word(0), pl |-> Bin(0)]
Opt(v) == IF Once(2) THEN <<>> ELSE <<v>>
Types == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14>>
Weighted == <<1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 14>>
Packet(t) ==
  CASE t = CONNECT ->
         With([will |-> Opt(Will(0)), user |-> Opt(Text(0)), pass |-> Opt(Bin(0))], LAMBDA x :
           [t |-> t, fl |-> 0, ka |-> Num16(0), cid |-> Text(0), props |-> PropsOf(t),
            cf |-> 2 * Of(0..1) + (IF x.will = <<>> THEN 0 ELSE 4 + 8 * Of(0..2) + 32 * Of(0..1)) + 64 * Len(x.pass) + 128 * Len(x.user)] @@ x)
    [] t = CONNACK -> [t |-> t, fl |-> 0, af |-> Of(0..1), rc |-> Rc(t), props |-> PropsOf(t)]
    [] t = PUBLISH ->
         With(Of(0..2), LAMBDA q :
           [t |-> t, fl |-> 2 * q + Of(0..1) + (IF q = 0 THEN 0 ELSE 8 * Of(0..1)), pid |-> IF q = 0 THEN 0 ELSE Nz16(0),
            topic |-> Word(0), props |-> PropsOf(t), pl |-> Bin(0)])
    [] t \in ACKS -> [t |-> t, fl |-> Flags(t), pid |-> Nz16(0), rc |-> Rc(t), props |-> PropsOf(t)]
    [] t = SUBSCRIBE -> [t |-> t, fl |-> 2, pid |-> Nz16(0), props |-> PropsOf(t),
                         filters |-> [i \in 1..Of(1..4) |-> <<Word(0), Of(0..2) + 4 * Of(0..3) + 16 * Of(0..2)>>]]
    [] t = UNSUBSCRIBE -> [t |-> t, fl |-> 2, pid |-> Nz16(0), props |-> PropsOf(t), topics |-> [i \in 1..Of(1..4) |-> Word(0)]]
    [] t \in {SUBACK, UNSUBACK} -> [t |-> t, fl |-> 0, pid |-> Nz16(0), props |-> PropsOf(t), rcs |-> RcList(t, Of(1..5))]
    [] t = DISCONNECT -> [t |-> t, fl |-> 0, rc |-> Rc(t), props |-> PropsOf(t)]
    [] OTHER -> [t |-> t, fl |-> 0]
(* The same, with the ways of building it that mean the same. *)
Built(t) == With(Packet(t), LAMBDA p :
  IF t = PUBLISH /\ p.pl = <<>> /\ Once(2) THEN p @@ [nopl |-> 1]
  ELSE IF t \in ACKS /\ p.rc = 0 /\ Once(2) THEN p @@ [setrc |-> 1] ELSE p)
(* a packet that had other values before, or is built with other constructors of the API *)
Reset(t) == With(<<Built(t), Packet(t)>>, LAMBDA x :
  IF t = CONNECT /\ x[1].will = <<>> /\ x[2].will # <<>> THEN x[1]
  ELSE (CASE Once(2) -> [was |-> x[2]] [] Once(2) -> [alt |-> 1] [] OTHER -> [was |-> x[2], alt |-> 1]) @@ x[1])
EncOp(p) == [op |-> "enc", p |-> p, tail |-> IF Once(3) THEN [i \in 1..Of(1..6) |-> Of(0..255)] ELSE <<>>]

----------------------------------------------------------------------------
(* Packets whose remaining or property length is n (or close to it). *)
FillUser(n) ==                                  \* user properties of n >= 6 bytes
  LET k == IF n > 65541 THEN (n - 6) \div 60006 ELSE 0
      one(m) == <<38, <<102>>, IF m - 6 < 3 THEN [i \in 1..m - 6 |-> 121] ELSE <<60>> \o Run(121, m - 8) \o <<62>>>>
  IN [i \in 1..k |-> one(60006)] \o <<one(n - 60006 * k)>>
FillList(n, f(_)) ==                            \* strings of together n >= 2 bytes, each with its length
  LET k == n \div 60002
      r == n - 60002 * k
      one(m) == f(IF m < 5 THEN [i \in 1..m - 2 |-> 121] ELSE <<60>> \o Run(121, m - 4) \o <<62>>)
  IN [i \in 1..k |-> one(60002)] \o (IF r < 2 THEN <<>> ELSE <<one(r)>>)
Fill(p, n, where) ==
  CASE where = "props" -> [p EXCEPT !.props = @ \o FillUser(n)]
    [] where = "will" -> [p EXCEPT !.will[1].props = @ \o FillUser(n)]
    [] where = "list" ->
         CASE p.t = PUBLISH -> [p EXCEPT !.pl = IF n < 3 THEN [i \in 1..n |-> 120] ELSE <<60>> \o Run(120, n - 2) \o <<62>>]
           [] p.t \in {SUBACK, UNSUBACK} -> [p EXCEPT !.rcs = IF n < 3 THEN [i \in 1..n |-> 0] ELSE <<128>> \o Run(Of({0, 1}), n - 2) \o <<128>>]
           [] p.t = SUBSCRIBE -> [p EXCEPT !.filters = FillList(n, LAMBDA s : <<s, 1>>)]
           [] p.t = UNSUBSCRIBE -> [p EXCEPT !.topics = FillList(n, LAMBDA s : s)]
Limits == <<127, 127, 128, 128, 129, 16383, 16384, 16385, 65535, 65536, 65541, 65542>>
BigLimits == <<2097151, 2097152, 2097153>>
Where(p) == Pick(<<"props", "props", "list", "will">>)
CanFill(p, w) == CASE w = "props" -> p.t \notin ACKS \cup {PINGREQ, PINGRESP}
                   [] w = "will" -> p.t = CONNECT /\ p.will # <<>>
                   [] w = "list" -> p.t \in {PUBLISH, SUBSCRIBE, UNSUBSCRIBE, SUBACK, UNSUBACK}
Measure(p, w, of) ==
  IF of = "rest" THEN ILen(Body(p))
  ELSE IF w = "will" THEN ILen(PropBytes(p.will[1].props)) ELSE ILen(PropBytes(p.props))
(* one of the lengths of p filled up to n *)
Filled(p, w, of, n) ==
  LET base == Measure(Fill(p, 6, w), w, of) - 6
      cand == {k \in 6..n : k >= n - base - 12 /\ k <= n - base + 2}
      good == {k \in cand : Measure(Fill(p, k, w), w, of) = n}
  IN IF good = {} THEN Fill(p, IF n > 200 THEN n - base ELSE 40, w) ELSE Fill(p, Of(good), w)
Sized(limits) ==
  With(<<Packet(Pick(<<1, 1, 2, 3, 3, 8, 9, 10, 11, 14>>)), Pick(<<"props", "list", "will">>), Pick(<<"rest", "props">>), Pick(limits)>>, LAMBDA x :
    LET p == x[1]
        w == IF CanFill(p, x[2]) THEN x[2] ELSE "props"
    IN Filled(p, w, IF w = "list" THEN "rest" ELSE x[3], x[4]))
(* a string at the limit of its length field *)
LongLens == <<65534, 65535, 65535, 65536, 65537, 65538, 70000, 131071, 131075, 196613>>
Long(n) == <<60>> \o Run(122, n - 2) \o <<62>>
Longs(d) ==
  With(<<Pick(<<1, 1, 1, 2, 3, 3, 8, 9, 10, 11, 14>>), Long(Pick(LongLens))>>, LAMBDA x :
    With(Packet(x[1]), LAMBDA p :
      LET s == x[2]
          ids == {id \in Allowed[p.t] : PropType[id] \in {"str", "bin", "pair"}}
          prop == With(Of(ids), LAMBDA id : IF id # 38 THEN <<id, s>> ELSE IF Once(2) THEN <<38, s, <<97>>>> ELSE <<38, <<97>>, s>>)
      IN CASE Once(2) -> [p EXCEPT !.props = <<prop>>]
           [] p.t = CONNECT /\ p.will # <<>> /\ Once(3) -> [p EXCEPT !.will[1] = IF Once(2) THEN [@ EXCEPT !.topic = s] ELSE [@ EXCEPT !.pl = s]]
           [] p.t = CONNECT /\ p.user # <<>> /\ Once(2) -> [p EXCEPT !.user = <<s>>]
           [] p.t = CONNECT /\ p.pass # <<>> /\ Once(2) -> [p EXCEPT !.pass = <<s>>]
           [] p.t = CONNECT -> [p EXCEPT !.cid = s]
           [] p.t = PUBLISH -> [p EXCEPT !.topic = s]
           [] p.t = SUBSCRIBE -> [p EXCEPT !.filters = <<<<s, 0>>>> \o @]
           [] p.t = UNSUBSCRIBE -> [p EXCEPT !.topics = @ \o <<s>>]
           [] OTHER -> [p EXCEPT !.props = <<prop>>]))
SubId(d) == With(Packet(Pick(<<3, 8>>)), LAMBDA p : [p EXCEPT !.props = << <<11, <<Pick(Vbis \o <<268435456, 268435457, 536870912, 2147483647>>)>>>> >>])
VbiOp(d) == With(Pick(<< <<0, Of(0..200)>>, <<0, Of(16380..16390)>>, <<Of({31, 32}), Of({0, 65535})>>, <<Of({4095, 4096}), Of({0, 1, 65535})>>,
                          <<Of({8191, 65535, 32768}), 65535>>, <<Of(0..4095), Of(0..65535)>> >>), LAMBDA v : [op |-> "vbi", hi |-> v[1], lo |-> v[2]])
Huge(d) ==                                      \* remaining length n, close to the largest
  With(<<Packet(PUBLISH), Of(268435454..268435457)>>, LAMBDA x :
    LET p == [x[1] EXCEPT !.pl = <<>>] IN [p EXCEPT !.pl = <<60>> \o Run(120, x[2] - ILen(Body(p)) - 2) \o <<62>>])

----------------------------------------------------------------------------
(* Byte sequences *)
Small(t) == With(Packet(t), LAMBDA p : With(Enc(p), LAMBDA b : Expand(b)))
PropsAt(t) == Prop(Of(Allowed[t]))
(* acknowledgements with properties, which the API can not build; properties of other packets; duplicates *)
AnyProps(t) ==
  With(Packet(t), LAMBDA p :
    IF t \in {PINGREQ, PINGRESP} THEN p
    ELSE [p EXCEPT !.props =
            CASE t \in ACKS -> (IF Once(3) THEN <<>> ELSE << <<31, Text(0)>> >>) \o (IF Once(2) THEN <<>> ELSE <<User(0), User(0)>>)
              [] Once(3) -> @ \o <<Prop(Of(DOMAIN PropType))>>
              [] Once(2) /\ @ # <<>> -> @ \o <<@[1]>>
              [] OTHER -> <<Prop(Of(Allowed[t]))>>])
Frame(h, body) == <<h>> \o Vbi(Len(body)) \o body
BadUtf == << <<192, 128>>, <<193, 191>>, <<224, 159, 191>>, <<237, 160, 128>>, <<237, 191, 191>>, <<240, 143, 191, 191>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>,
             <<128>>, <<191>>, <<195>>, <<226, 130>>, <<240, 159, 142>>, <<255>>, <<254>>, <<248, 136, 128, 128, 128>>, <<195, 40>>, <<0>> >>
(* a packet one of whose strings is s *)
WithText(p, s) ==
  CASE p.t = CONNECT /\ p.will # <<>> /\ Once(3) -> [p EXCEPT !.will[1].topic = s]
    [] p.t = CONNECT /\ p.user # <<>> /\ Once(2) -> [p EXCEPT !.user = <<s>>]
    [] p.t = CONNECT /\ Once(2) -> [p EXCEPT !.cid = s]
    [] p.t = PUBLISH /\ Once(2) -> [p EXCEPT !.topic = s]
    [] p.t = SUBSCRIBE /\ Once(2) -> [p EXCEPT !.filters[1] = <<s, 0>>]
    [] p.t = UNSUBSCRIBE /\ Once(2) -> [p EXCEPT !.topics = Append(@, s)]
    [] p.t \in {PINGREQ, PINGRESP} -> p
    [] OTHER -> LET ids == {id \in Allowed[p.t] : PropType[id] \in {"str", "pair"}} IN
                [p EXCEPT !.props = <<With(Of(ids), LAMBDA id : IF id # 38 THEN <<id, s>> ELSE IF Once(2) THEN <<38, s, <<97>>>> ELSE <<38, <<97>>, s>>)>>]
Spoilt(t) == With(Packet(t), LAMBDA p : Expand(Enc(WithText(p, Ascii(Of(0..2)) \o Pick(BadUtf \o UTF) \o Ascii(Of(0..2))))))
(* packets with a value that is not defined for its field *)
Undefined(d) ==
  With(Pick(<<1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14>>), LAMBDA t : With(Packet(t), LAMBDA p :
    LET bools == BOOLS \cap Allowed[t]
        code == Pick(<<3, 5, 15, 18, 23, 26, 127, 136 + 100, 163, 200, 255>>)
    IN CASE t = CONNECT /\ p.will # <<>> /\ Once(2) -> [p EXCEPT !.will[1].props = << <<1, <<Pick(<<2, 3, 128, 255>>)>>>> >>]
         [] t = CONNECT -> [p EXCEPT !.cf = IF Once(2) THEN @ + 1 ELSE IF p.will = <<>> THEN @ + Pick(<<8, 16, 32, 40>>) ELSE (@ - 8 * ((@ \div 8) % 4)) + 24]
         [] bools # {} /\ Once(2) -> [p EXCEPT !.props = @ \o << <<Of(bools), <<Pick(<<2, 3, 3, 128, 255>>)>>>> >>]
         [] t = SUBSCRIBE -> [p EXCEPT !.filters = Append(@, <<<<97>>, Pick(<<3, 7, 48, 49, 64, 65, 128, 192, 255>>)>>)]
         [] t = PUBLISH -> [p EXCEPT !.fl = 6 + 8 * Of(0..1) + Of(0..1)]
         [] t \in {SUBACK, UNSUBACK} -> [p EXCEPT !.rcs = IF Once(2) THEN Append(@, code) ELSE <<code>> \o @]
         [] OTHER -> [p EXCEPT !.rc = code]))
HeadLen(b) == LET x == VbiAt(Tail(b)) IN 1 + x.n
BodyOf(b) == SubSeq(b, HeadLen(b) + 1, Len(b))
(* damages of an encoded packet b; those of the body keep the remaining length right *)
Damage(b) ==
  LET h == b[1]
      c == BodyOf(b)
      n == Len(c)
      at == Of(0..n)                           \* evaluated anew each time
  IN CASE n > 0 /\ Once(5) -> With(Of(0..n - 1), LAMBDA k : Frame(h, SubSeq(c, 1, k)))                      \* cut short
       [] Once(6) -> Frame(h, c \o [i \in 1..Of(1..3) |-> Pick(<<0, 0, 1, 38, 31, Of(0..255)>>)])           \* surplus bytes
       [] n > 0 /\ Once(4) -> With(Of(1..n), LAMBDA k : Frame(h, [c EXCEPT ![k] = Pick(<<@ + 1, @ - 1, @ + 2, @ + 128, 0, 255, Of(0..255)>>) % 256]))
       [] n > 0 /\ Once(4) -> With(Of(1..n), LAMBDA k : Frame(h, SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, n))) \* a byte lost
       [] Once(4) -> With(Of(0..n), LAMBDA k : Frame(h, SubSeq(c, 1, k) \o <<Of(0..255)>> \o SubSeq(c, k + 1, n)))
       [] Once(4) -> <<Of(0..255)>> \o Tail(b)                                                              \* another packet type or flags
       [] Once(5) -> With(Pick(<<n + 1, n - 1, n + 5, 0, 1, 2>>), LAMBDA m : <<h>> \o Vbi(IF m < 0 THEN 0 ELSE m) \o c)  \* a wrong remaining length
       [] Once(5) -> <<h>> \o Pick(<< <<128 + (n % 128), n \div 128>>, <<128 + (n % 128), 128 + (n \div 128), 0>>, <<128 + (n % 128), 128 + (n \div 128), 128, 0>>,
                                     <<128 + (n % 128), 128, 128, 128, 0>>, <<255, 255, 255, 255, 127>>, <<255, 255, 255>>, <<128>> >>) \o c
       [] n > 0 -> With(<<Of(0..n), BodyOf(Small(Pick(Types)))>>, LAMBDA x :                               \* two packets mixed
                     With(Of(0..Len(x[2])), LAMBDA k : Frame(h, SubSeq(c, 1, x[1]) \o SubSeq(x[2], k + 1, Len(x[2])))))
       [] OTHER -> b
Sample(d) == CASE Once(3) -> Small(Pick(Weighted)) [] Once(2) -> With(AnyProps(Pick(Weighted)), LAMBDA p : Expand(Enc(p))) [] OTHER -> Spoilt(Pick(Weighted))
DecOp(b) == [op |-> "dec", b |-> b]
Random(d) == [i \in 1..Of(0..12) |-> IF i = 1 THEN 16 * Of(0..15) + Pick(<<0, 0, 2, Of(0..15)>>) ELSE IF i = 2 THEN Of(0..12) ELSE Pick(<<0, 1, 2, 3, 38, 31, 17, Of(0..255)>>)]
Joined(d) == With(<<Sample(0), Sample(0)>>, LAMBDA x : x[1] \o x[2])
Cut(b) == With(Of(0..Len(b)), LAMBDA k : SubSeq(b, 1, k))
Sweep(b) == With(IF Len(b) > 3 /\ Once(3) THEN Of(1..4) ELSE Of(1..Len(b)), LAMBDA k : [op |-> "sweep", b |-> b, i |-> k])
(* around the property length and the first properties, where most of the structure is *)
Short(t) == With(AnyProps(t), LAMBDA p :
  IF t \in {PINGREQ, PINGRESP} THEN Enc(p)
  ELSE Expand(Enc(IF Len(p.props) > 3 THEN [p EXCEPT !.props = SubSeq(@, 1, 3)] ELSE p)))

Op(d) ==
  CASE Profile = "C01" -> (CASE Once(8) -> EncOp(Longs(0)) [] Once(10) -> EncOp(Sized(Limits)) [] Once(6) -> DecOp(Small(Pick(Weighted)) \o Cut(Sample(0)))
                             [] Once(6) -> With(AnyProps(Pick(<<4, 5, 6, 7>>)), LAMBDA p : DecOp(Enc(p)))
                             [] Once(3) -> EncOp(Reset(Pick(Weighted)))
                             [] OTHER -> EncOp(Built(Pick(Weighted))))
    [] Profile = "C02" -> (CASE Once(4) -> DecOp(Joined(0)) [] Once(4) -> With(Cut(Sample(0)), LAMBDA b : DecOp(b)) [] Once(5) -> DecOp(Random(0))
                             [] Once(4) -> [op |-> "pre", b |-> Sample(0)] [] Once(4) -> [op |-> "storm", b |-> Short(Pick(Types))]
                             [] Once(3) -> With(Damage(Sample(0)), LAMBDA b : DecOp(b \o Cut(b)))
                             [] Once(6) -> [op |-> "pre", b |-> Damage(Sample(0))]
                             [] OTHER -> With(Damage(Sample(0)), LAMBDA b : DecOp(b)))
    [] Profile = "C03" -> (CASE Once(4) -> VbiOp(0) [] Once(6) -> EncOp(SubId(0)) [] Once(3) -> EncOp(Longs(0)) [] Once(40) -> EncOp(Sized(BigLimits))
                             [] OTHER -> EncOp(Sized(Limits)))
    [] Profile = "C04" -> (CASE Once(5) -> With(Undefined(0), LAMBDA p : DecOp(Expand(Enc(p)))) [] Once(3) -> DecOp(Damage(Sample(0))) [] Once(3) -> DecOp(Sample(0)) [] OTHER -> With(Damage(Sample(0)), LAMBDA b : IF Len(b) > 2 /\ HeadLen(b) > 1 /\ Len(b) = HeadLen(b) + VbiAt(Tail(b)).v THEN DecOp(Damage(b)) ELSE DecOp(b)))
    [] Profile = "SWEEP" -> With(Short(Pick(Types)), LAMBDA b : Sweep(b))
    [] Profile = "HUGE" -> EncOp(Huge(0))

Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ PrintT(<<"SCRIPT", ToJson([ops |-> [i \in 1..DEPTH |-> Op(i)]])>>)
Spec == Init /\ [][Next]_done
=============================================================================
