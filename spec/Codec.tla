------------------------------- MODULE Codec -------------------------------
(* The wire format of MQTT 5: packets as abstract values, their encoding Enc, and the reading Dec of a byte
   sequence, which says of every byte sequence whether it holds a packet, and which, or is malformed, or is
   the beginning of a frame.

   A byte sequence is a sequence of items: a byte (0..255), or a run of n equal bytes b, written b + 256 * n.
   Values: byte, two byte and variable byte integers are numbers, four byte integers are <<high, low>>
   halves, strings and binary data are byte sequences. Every property value is a sequence. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

CHUNK == 4194304          \* longest run of one item
MAXVBI == 268435455

----------------------------------------------------------------------------
(* Byte sequences with runs *)
HasRun(s) == \E i \in 1..Len(s) : s[i] >= 256
Cnt(x) == IF x < 256 THEN 1 ELSE x \div 256
ILen(s) == IF HasRun(s) THEN FoldLeft(LAMBDA a, x : a + Cnt(x), 0, s) ELSE Len(s)
Run(b, n) == [i \in 1..(n \div CHUNK) |-> b + 256 * CHUNK] \o (IF n % CHUNK = 0 THEN <<>> ELSE << b + 256 * (n % CHUNK) >>)
(* <<the first n bytes, the others>> *)
Take(s, n) ==
  IF ~HasRun(s) THEN << SubSeq(s, 1, n), SubSeq(s, n + 1, Len(s)) >>
  ELSE LET f(acc, x) == LET c == Cnt(x) IN
             IF acc.n >= c THEN [n |-> acc.n - c, a |-> Append(acc.a, x), b |-> acc.b]
             ELSE IF acc.n = 0 THEN [acc EXCEPT !.b = Append(@, x)]
             ELSE [n |-> 0, a |-> Append(acc.a, (x % 256) + 256 * acc.n), b |-> Append(acc.b, (x % 256) + 256 * (c - acc.n))]
           r == FoldLeft(f, [n |-> n, a |-> <<>>, b |-> <<>>], s)
       IN << r.a, r.b >>
(* the bytes of a short sequence, runs spelled out *)
Expand(s) == IF ~HasRun(s) THEN s
             ELSE FoldLeft(LAMBDA a, x : a \o [i \in 1..Cnt(x) |-> x % 256], <<>>, s)
(* the same for equal sequences, however their runs are written *)
Canon(s) ==
  IF Len(s) < 16 /\ ~HasRun(s) THEN s
  ELSE LET f(acc, x) == LET l == Len(acc) IN
             IF l > 0 /\ acc[l][1] = x % 256 THEN [acc EXCEPT ![l] = <<@[1], @[2] + Cnt(x)>>] ELSE Append(acc, <<x % 256, Cnt(x)>>)
           m == FoldLeft(f, <<>>, s)
           g(acc, x) == IF x[2] < 16 THEN acc \o [i \in 1..x[2] |-> x[1]] ELSE acc \o Run(x[1], x[2])
       IN FoldLeft(g, <<>>, m)

(* Well-formed UTF-8 (RFC 3629): no overlong forms, surrogates, or code points above U+10FFFF. The state is
   the number of continuation bytes to come and the range of the next one. *)
Utf8(s) ==
  LET st(n, lo, hi) == [n |-> n, lo |-> lo, hi |-> hi]
      f(a, x) ==
        LET b == x % 256 IN
        IF a.n < 0 THEN a
        ELSE IF x >= 256 THEN (IF a.n = 0 /\ b < 128 THEN a ELSE st(-1, 0, 0))
        ELSE IF a.n > 0 THEN (IF a.lo <= b /\ b <= a.hi THEN st(a.n - 1, 128, 191) ELSE st(-1, 0, 0))
        ELSE IF b < 128 THEN a
        ELSE IF b < 194 THEN st(-1, 0, 0)
        ELSE IF b < 224 THEN st(1, 128, 191)
        ELSE IF b = 224 THEN st(2, 160, 191)
        ELSE IF b = 237 THEN st(2, 128, 159)
        ELSE IF b < 240 THEN st(2, 128, 191)
        ELSE IF b = 240 THEN st(3, 144, 191)
        ELSE IF b < 244 THEN st(3, 128, 191)
        ELSE IF b = 244 THEN st(3, 128, 143)
        ELSE st(-1, 0, 0)
  IN FoldLeft(f, st(0, 0, 0), Canon(s)).n = 0
HasNul(s) == \E i \in 1..Len(s) : s[i] % 256 = 0

----------------------------------------------------------------------------
(* Tables of the standard *)
CONNECT == 1   CONNACK == 2  PUBLISH == 3   PUBACK == 4       PUBREC == 5     PUBREL == 6    PUBCOMP == 7
SUBSCRIBE == 8 SUBACK == 9   UNSUBSCRIBE == 10 UNSUBACK == 11 PINGREQ == 12   PINGRESP == 13 DISCONNECT == 14  AUTH == 15
ACKS == PUBACK..PUBCOMP
WILL == 16                                      \* not a packet type: the properties of a will

PropType ==
  (1 :> "u8") @@ (2 :> "u32") @@ (3 :> "str") @@ (8 :> "str") @@ (9 :> "bin") @@ (11 :> "vbi") @@ (17 :> "u32") @@ (18 :> "str") @@
  (19 :> "u16") @@ (21 :> "str") @@ (22 :> "bin") @@ (23 :> "u8") @@ (24 :> "u32") @@ (25 :> "u8") @@ (26 :> "str") @@ (28 :> "str") @@
  (31 :> "str") @@ (33 :> "u16") @@ (34 :> "u16") @@ (35 :> "u16") @@ (36 :> "u8") @@ (37 :> "u8") @@ (38 :> "pair") @@ (39 :> "u32") @@
  (40 :> "u8") @@ (41 :> "u8") @@ (42 :> "u8")
Allowed ==
  << {17, 33, 39, 34, 25, 23, 21, 22, 38},
     {17, 33, 36, 37, 39, 18, 34, 31, 41, 38, 40, 42, 19, 26, 28, 21, 22},
     {2, 1, 35, 8, 9, 11, 3, 38},
     {31, 38}, {31, 38}, {31, 38}, {31, 38},
     {11, 38}, {31, 38}, {38}, {31, 38}, {}, {}, {17, 31, 28, 38}, {21, 22, 31, 38},
     {24, 1, 2, 3, 8, 9, 38} >>
BOOLS == {1, 23, 25, 36, 37, 40, 41, 42}        \* only 0 and 1 are meaningful
NoValue(id, n) == (id \in {1, 37, 40, 41, 42} /\ n > 1) \/ (id = 36 /\ n > 2)
NONZERO == {11, 33, 35, 39}
Reasons == {0, 1, 2, 4, 16, 17, 24, 25} \cup (128..162)
ReasonsOf ==
  << {}, {0} \cup (128..138) \cup {140, 144, 149, 151, 153, 154, 155, 156, 157, 159}, {},
     {0, 16, 128, 131, 135, 144, 145, 151, 153}, {0, 16, 128, 131, 135, 144, 145, 151, 153}, {0, 146}, {0, 146}, {},
     {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}, {}, {0, 17, 128, 131, 135, 143, 145}, {}, {},
     {0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144} \cup (147..162), {} >>
Flags(t) == IF t \in {PUBREL, SUBSCRIBE, UNSUBSCRIBE} THEN 2 ELSE 0

----------------------------------------------------------------------------
(* Encoding. A packet: [t |-> type, fl |-> flags of the fixed header] and, depending on the type,
     CONNECT      cf, ka, props, cid, will (<<>> or <<[props, topic, pl]>>), user, pass (<<>> or <<value>>)
     CONNACK      af, rc, props             PUBLISH    topic, pid, props, pl
     PUBACK...    pid, rc, props            SUBSCRIBE  pid, props, filters (<<filter, options>>)
     SUBACK, UNSUBACK  pid, props, rcs      UNSUBSCRIBE  pid, props, topics      DISCONNECT  rc, props
   Properties are a sequence of <<identifier, value>>, of user properties <<38, name, value>>. *)
U16(n) == << n \div 256, n % 256 >>
RECURSIVE Vbi(_)
Vbi(n) == IF n < 128 THEN <<n>> ELSE << 128 + (n % 128) >> \o Vbi(n \div 128)
Lp(s) == U16(ILen(s)) \o s
EVal(k, v) ==
  CASE k = "u8" -> <<v[1]>>
    [] k = "u16" -> U16(v[1])
    [] k = "u32" -> U16(v[1]) \o U16(v[2])
    [] k = "vbi" -> Vbi(v[1])
    [] OTHER -> Lp(v)
EProp(x) == IF x[1] = 38 THEN <<38>> \o Lp(x[2]) \o Lp(x[3]) ELSE <<x[1]>> \o EVal(PropType[x[1]], x[2])
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
PropBytes(ps) == Cat([i \in 1..Len(ps) |-> EProp(ps[i])])
EProps(ps) == LET b == PropBytes(ps) IN Vbi(ILen(b)) \o b
Body(p) ==
  CASE p.t = CONNECT ->
         Lp(<<77, 81, 84, 84>>) \o <<5, p.cf>> \o U16(p.ka) \o EProps(p.props) \o Lp(p.cid)
         \o (IF p.will = <<>> THEN <<>> ELSE EProps(p.will[1].props) \o Lp(p.will[1].topic) \o Lp(p.will[1].pl))
         \o (IF p.user = <<>> THEN <<>> ELSE Lp(p.user[1])) \o (IF p.pass = <<>> THEN <<>> ELSE Lp(p.pass[1]))
    [] p.t = CONNACK -> <<p.af, p.rc>> \o EProps(p.props)
    [] p.t = PUBLISH -> Lp(p.topic) \o (IF (p.fl \div 2) % 4 > 0 THEN U16(p.pid) ELSE <<>>) \o EProps(p.props) \o p.pl
    [] p.t \in ACKS -> U16(p.pid) \o (IF p.props # <<>> THEN <<p.rc>> \o EProps(p.props) ELSE IF p.rc # 0 THEN <<p.rc, 0>> ELSE <<>>)
    [] p.t = SUBSCRIBE -> U16(p.pid) \o EProps(p.props) \o Cat([i \in 1..Len(p.filters) |-> Lp(p.filters[i][1]) \o <<p.filters[i][2]>>])
    [] p.t \in {SUBACK, UNSUBACK} -> U16(p.pid) \o EProps(p.props) \o p.rcs
    [] p.t = UNSUBSCRIBE -> U16(p.pid) \o EProps(p.props) \o Cat([i \in 1..Len(p.topics) |-> Lp(p.topics[i])])
    [] p.t = DISCONNECT -> IF p.props # <<>> THEN <<p.rc>> \o EProps(p.props) ELSE IF p.rc # 0 THEN <<p.rc, 0>> ELSE <<>>
    [] OTHER -> <<>>
Enc(p) == LET b == Body(p) IN << 16 * p.t + p.fl >> \o Vbi(ILen(b)) \o b

(* Whether the packet can be encoded at all. *)
Strings(p) ==
  LET ps(q) == FlattenSeq([i \in 1..Len(q) |-> IF q[i][1] = 38 THEN <<q[i][2], q[i][3]>>
                                            ELSE IF PropType[q[i][1]] \in {"str", "bin"} THEN <<q[i][2]>> ELSE <<>>])
  IN CASE p.t = CONNECT -> ps(p.props) \o <<p.cid>> \o p.user \o p.pass
                           \o (IF p.will = <<>> THEN <<>> ELSE ps(p.will[1].props) \o <<p.will[1].topic, p.will[1].pl>>)
       [] p.t = PUBLISH -> ps(p.props) \o <<p.topic>>
       [] p.t = SUBSCRIBE -> ps(p.props) \o [i \in 1..Len(p.filters) |-> p.filters[i][1]]
       [] p.t = UNSUBSCRIBE -> ps(p.props) \o p.topics
       [] p.t \in {PINGREQ, PINGRESP} -> <<>>
       [] OTHER -> ps(p.props)
Fits(p) ==
  /\ \A i \in 1..Len(Strings(p)) : ILen(Strings(p)[i]) <= 65535
  /\ ILen(Body(p)) <= MAXVBI
  /\ p.t \in {PUBLISH, SUBSCRIBE} => \A i \in 1..Len(p.props) : p.props[i][1] = 11 => p.props[i][2][1] <= MAXVBI

----------------------------------------------------------------------------
(* Reading. A reader has the bytes left and the values read; it is bad once something cannot be read, and
   odd once something was read that a sender must not send but a receiver may put up with. *)
Reader(r) == [bad |-> FALSE, odd |-> FALSE, r |-> r, v |-> <<>>]
Bad(st) == [st EXCEPT !.bad = TRUE]
Odd(st, c) == [st EXCEPT !.odd = @ \/ c]
(* n bytes, of which f makes the value *)
Bytes(st, n) == IF st.bad \/ ILen(st.r) < n THEN Bad(st)
                ELSE LET x == Take(st.r, n) IN [st EXCEPT !.r = x[2], !.v = Append(@, x[1])]
Last1(st) == st.v[Len(st.v)]
WithLast(st, x) == [st EXCEPT !.v = [@ EXCEPT ![Len(@)] = x]]
Num(st, n) == LET a == Bytes(st, n) IN
  IF a.bad THEN a
  ELSE LET b == Expand(Last1(a)) IN
       WithLast(a, CASE n = 1 -> b[1] [] n = 2 -> 256 * b[1] + b[2] [] n = 4 -> <<256 * b[1] + b[2], 256 * b[3] + b[4]>>)
(* A variable byte integer at the start of r: [n |-> bytes, v |-> value], n = 0: more bytes needed, n = -1: malformed *)
VbiAt(r) ==
  LET h == Expand(Take(r, IF ILen(r) < 4 THEN ILen(r) ELSE 4)[1])
      ends == {i \in 1..Len(h) : h[i] < 128}
      val(k) == FoldLeft(LAMBDA a, i : 128 * a + (h[k + 1 - i] % 128), 0, [i \in 1..k |-> i])
  IN IF ends = {} THEN [n |-> IF Len(h) < 4 THEN 0 ELSE -1, v |-> 0, long |-> FALSE]
     ELSE LET k == Min(ends) IN [n |-> k, v |-> val(k), long |-> k > 1 /\ h[k] = 0]
ReadVbi(st) ==
  IF st.bad THEN st
  ELSE LET x == VbiAt(st.r) IN
       IF x.n <= 0 THEN Bad(st)
       ELSE [st EXCEPT !.r = Take(@, x.n)[2], !.v = Append(@, x.v), !.odd = @ \/ x.long]
ReadBin(st) ==
  LET a == Num(st, 2) IN
  IF a.bad THEN a ELSE Bytes([a EXCEPT !.v = SubSeq(@, 1, Len(@) - 1)], Last1(a))
ReadStr(st) ==
  LET a == ReadBin(st) IN
  IF a.bad THEN a ELSE IF ~Utf8(Last1(a)) THEN Bad(a) ELSE Odd(a, HasNul(Last1(a)))
ReadRc(st, t) ==
  LET a == Num(st, 1) IN
  IF a.bad THEN a ELSE IF Last1(a) \notin Reasons THEN Bad(a) ELSE Odd(a, t > 0 /\ Last1(a) \notin ReasonsOf[t])
Read(st, k) ==
  CASE k = "u8" -> Num(st, 1) [] k = "u16" -> Num(st, 2) [] k = "u32" -> Num(st, 4) [] k = "vbi" -> ReadVbi(st)
    [] k = "str" -> ReadStr(st) [] k = "bin" -> ReadBin(st)

(* The properties in the bytes of st, one after the other. *)
RECURSIVE PropList(_, _, _)
PropList(st, t, seen) ==
  IF st.bad \/ st.r = <<>> THEN st
  ELSE LET a == Num([st EXCEPT !.v = <<>>], 1)
           id == Last1(a)
       IN IF id >= 128 THEN (IF VbiAt(st.r).long THEN Odd([st EXCEPT !.r = <<>>], TRUE) ELSE Bad(st))
          ELSE IF id \notin Allowed[t] THEN Bad(st)
          ELSE IF id = 38 THEN
                 LET b == ReadStr(ReadStr([a EXCEPT !.v = <<>>])) IN
                 IF b.bad THEN b ELSE PropList([b EXCEPT !.v = Append(st.v, <<38, b.v[1], b.v[2]>>)], t, seen)
          ELSE LET b == Read([a EXCEPT !.v = <<>>], PropType[id])
                   v == b.v[1]
                   val == CASE PropType[id] \in {"u8", "u16", "vbi"} -> <<v>> [] OTHER -> v
                   odd == \/ id \in seen \/ (id \in BOOLS /\ val[1] > 1)
                          \/ (id \in NONZERO /\ \A i \in 1..Len(val) : val[i] = 0)
               IN IF b.bad \/ NoValue(id, val[1]) THEN Bad(b)
                  ELSE PropList([b EXCEPT !.v = Append(st.v, <<id, val>>), !.odd = @ \/ odd], t, seen \cup {id})
ReadProps(st, t) ==
  LET a == ReadVbi(st) IN
  IF a.bad THEN a
  ELSE LET b == Bytes([a EXCEPT !.v = SubSeq(@, 1, Len(@) - 1)], Last1(a)) IN
       IF b.bad THEN b
       ELSE LET q == PropList(Reader(Last1(b)), t, {}) IN
            [WithLast(b, q.v) EXCEPT !.bad = q.bad, !.odd = @ \/ q.odd]
RECURSIVE Many(_, _)
Many(st, f) ==                                  \* strings (with an options byte) to the end
  IF st.bad \/ st.r = <<>> THEN st
  ELSE LET a == ReadStr([st EXCEPT !.v = <<>>]) IN
       IF f = "topics" THEN (IF a.bad THEN a ELSE Many([a EXCEPT !.v = Append(st.v, a.v[1])], f))
       ELSE LET b == Num(a, 1) IN
            IF b.bad THEN b
            ELSE LET o == b.v[2] IN
                 IF o % 4 = 3 \/ o >= 64 \/ (o \div 16) % 4 = 3 THEN Bad(b)
                 ELSE Many([b EXCEPT !.v = Append(st.v, <<b.v[1], o>>)], f)
(* The rest, which is a sequence of reason codes *)
Codes(st, t) ==
  IF st.bad THEN st
  ELSE IF \E i \in 1..Len(st.r) : st.r[i] % 256 \notin Reasons THEN Bad(st)
  ELSE [st EXCEPT !.r = <<>>, !.v = Append(@, st.r), !.odd = @ \/ st.r = <<>> \/ \E i \in 1..Len(st.r) : st.r[i] % 256 \notin ReasonsOf[t]]

Bit(n, i) == (n \div 2^i) % 2
ReadConnect(st) ==
  LET a == Read(Read(Read(Read(st, "str"), "u8"), "u8"), "u16")
      b == ReadStr(ReadProps(a, CONNECT))
      cf == b.v[3]
      w == IF Bit(cf, 2) = 1 THEN ReadBin(ReadStr(ReadProps(b, WILL))) ELSE b
      u == IF Bit(cf, 7) = 1 THEN ReadStr(w) ELSE w
      q == IF Bit(cf, 6) = 1 THEN ReadBin(u) ELSE u
      i == IF Bit(cf, 2) = 1 THEN 9 ELSE 6
      odd == a.v[1] # <<77, 81, 84, 84>> \/ a.v[2] # 5
  IN IF a.bad \/ b.bad THEN [st |-> Bad(st)]
     ELSE IF (cf \div 8) % 4 = 3 \/ Bit(cf, 0) = 1 \/ (Bit(cf, 2) = 0 /\ Bit(cf, 3) + Bit(cf, 4) + Bit(cf, 5) > 0) THEN [st |-> Bad(st)]
     ELSE IF q.bad THEN [st |-> q]
     ELSE [st |-> Odd(q, odd),
           p |-> [t |-> CONNECT, fl |-> 0, cf |-> cf, ka |-> b.v[4], props |-> b.v[5], cid |-> b.v[6],
                  will |-> IF Bit(cf, 2) = 1 THEN << [props |-> w.v[7], topic |-> w.v[8], pl |-> w.v[9]] >> ELSE <<>>,
                  user |-> IF Bit(cf, 7) = 1 THEN << u.v[i + 1] >> ELSE <<>>,
                  pass |-> IF Bit(cf, 6) = 1 THEN << q.v[Len(q.v)] >> ELSE <<>>]]
ReadPublish(st, fl) ==
  LET q == (fl \div 2) % 4
      a == ReadStr(st)
      b == IF q > 0 THEN Num(a, 2) ELSE [a EXCEPT !.v = Append(@, 0)]
      c == ReadProps(b, PUBLISH)
  IN IF q = 3 \/ c.bad THEN [st |-> Bad(st)]
     ELSE [st |-> [c EXCEPT !.r = <<>>, !.odd = @ \/ (q > 0 /\ c.v[2] = 0) \/ (q = 0 /\ fl >= 8)],
           p |-> [t |-> PUBLISH, fl |-> fl, topic |-> c.v[1], pid |-> c.v[2], props |-> c.v[3], pl |-> c.r]]
(* an acknowledgement or DISCONNECT, whose reason code and properties may be left out *)
ReadShort(st, t) ==
  LET a == IF t = DISCONNECT THEN [st EXCEPT !.v = Append(@, 0)] ELSE Num(st, 2)
      b == IF a.r = <<>> THEN [a EXCEPT !.v = Append(@, 0)] ELSE ReadRc(a, t)
      c == IF b.r = <<>> THEN [b EXCEPT !.v = Append(@, <<>>)] ELSE ReadProps(b, t)
  IN IF a.bad \/ b.bad \/ c.bad THEN [st |-> Bad(st)]
     ELSE [st |-> Odd(c, t # DISCONNECT /\ c.v[1] = 0),
           p |-> IF t = DISCONNECT THEN [t |-> t, fl |-> 0, rc |-> c.v[2], props |-> c.v[3]]
                 ELSE [t |-> t, fl |-> Flags(t), pid |-> c.v[1], rc |-> c.v[2], props |-> c.v[3]]]
ReadConnack(st) ==
  LET a == ReadProps(ReadRc(Num(st, 1), CONNACK), CONNACK) IN
  IF a.bad THEN [st |-> a]
  ELSE [st |-> Odd(a, a.v[1] > 1), p |-> [t |-> CONNACK, fl |-> 0, af |-> a.v[1], rc |-> a.v[2], props |-> a.v[3]]]
ReadIdProps(st, t) == LET a == ReadProps(Num(st, 2), t) IN IF a.bad THEN a ELSE Odd(a, a.v[1] = 0)
ReadList(st, t) ==
  LET a == ReadIdProps(st, t)
      b == IF t \in {SUBACK, UNSUBACK} THEN Codes(a, t) ELSE Many([a EXCEPT !.v = <<>>], IF t = SUBSCRIBE THEN "filters" ELSE "topics")
      h == [t |-> t, fl |-> Flags(t), pid |-> a.v[1], props |-> a.v[2]]
  IN IF a.bad THEN [st |-> a]
     ELSE IF b.bad THEN [st |-> b]
     ELSE IF t \in {SUBACK, UNSUBACK} THEN [st |-> b, p |-> h @@ [rcs |-> b.v[3]]]
     ELSE [st |-> Odd(b, b.v = <<>>), p |-> IF t = SUBSCRIBE THEN h @@ [filters |-> b.v] ELSE h @@ [topics |-> b.v]]
ReadBody(t, fl, body) ==
  LET st == Reader(body) IN
  CASE t = CONNECT -> ReadConnect(st)
    [] t = CONNACK -> ReadConnack(st)
    [] t = PUBLISH -> ReadPublish(st, fl)
    [] t \in ACKS \cup {DISCONNECT} -> ReadShort(st, t)
    [] t \in {SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK} -> ReadList(st, t)
    [] t \in {PINGREQ, PINGRESP} -> [st |-> st, p |-> [t |-> t, fl |-> 0]]
    [] t = AUTH -> [st |-> [st EXCEPT !.odd = TRUE, !.r = <<>>], p |-> [t |-> t, fl |-> 0]]

(* Of every byte sequence:
     [k |-> "need"]        the beginning of a frame       [k |-> "err"]  malformed
     [k |-> "hopeless"]    the beginning of a frame whose fixed header is malformed
     [k |-> "ok", n, p]    its first n bytes are packet p
     [k |-> "odd", n, p]   the same, but no sender may send this: p may be refused *)
Dec(s) ==
  IF ILen(s) < 2 THEN [k |-> "need"]
  ELSE LET h == Expand(Take(s, 1)[1])[1]
           t == h \div 16
           fl == h % 16
           x == VbiAt(Take(s, 1)[2])
           hopeless == t = 0 \/ (t # PUBLISH /\ fl # Flags(t)) \/ (t = PUBLISH /\ (fl \div 2) % 4 = 3)
       IN IF x.n = -1 THEN [k |-> "err"]
          ELSE IF x.n = 0 \/ ILen(s) < 1 + x.n + x.v THEN [k |-> IF hopeless THEN "hopeless" ELSE "need"]
          ELSE IF hopeless THEN [k |-> "err"]
          ELSE LET n == 1 + x.n + x.v
                   body == Take(Take(s, 1 + x.n)[2], x.v)[1]
                   q == ReadBody(t, fl, body)
               IN IF q.st.bad \/ q.st.r # <<>> THEN [k |-> "err"]
                  ELSE [k |-> IF x.long \/ q.st.odd THEN "odd" ELSE "ok", n |-> n, p |-> q.p]

----------------------------------------------------------------------------
(* Packets are compared without the order of properties; of user properties the order of the values of one
   name matters. Empty binary data counts as absent, and the reason string of an UNSUBACK is never absent. *)
Props(ps, t) ==
  LET u == SelectSeq(ps, LAMBDA x : x[1] = 38)
      names == {Canon(u[i][2]) : i \in 1..Len(u)}
      vals(n) == LET q == SelectSeq(u, LAMBDA x : Canon(x[2]) = n) IN [i \in 1..Len(q) |-> Canon(q[i][3])]
      drop(x) == x[1] = 38 \/ (x[1] \in {9, 22} /\ x[2] = <<>>) \/ (t = UNSUBACK /\ x[1] = 31 /\ x[2] = <<>>)
      s == SelectSeq(ps, LAMBDA x : ~drop(x))
  IN [s |-> {<<s[i][1], IF PropType[s[i][1]] \in {"str", "bin"} THEN Canon(s[i][2]) ELSE s[i][2]>> : i \in 1..Len(s)},
      u |-> {<<n, vals(n)>> : n \in names}]
CanonAll(q) == [i \in 1..Len(q) |-> Canon(q[i])]
Norm(p) ==
  CASE p.t = CONNECT -> [p EXCEPT !.props = Props(@, CONNECT), !.cid = Canon(@), !.user = CanonAll(@), !.pass = CanonAll(@),
                                  !.will = IF @ = <<>> THEN @ ELSE << [props |-> Props(@[1].props, WILL), topic |-> Canon(@[1].topic), pl |-> Canon(@[1].pl)] >>]
    [] p.t = CONNACK -> [p EXCEPT !.props = Props(@, p.t)]
    [] p.t = PUBLISH -> [p EXCEPT !.props = Props(@, p.t), !.topic = Canon(@), !.pl = Canon(@)]
    [] p.t \in ACKS \cup {DISCONNECT} -> [p EXCEPT !.props = Props(@, p.t)]
    [] p.t = SUBSCRIBE -> [p EXCEPT !.props = Props(@, p.t), !.filters = [i \in 1..Len(@) |-> <<Canon(@[i][1]), @[i][2]>>]]
    [] p.t \in {SUBACK, UNSUBACK} -> [p EXCEPT !.props = Props(@, p.t), !.rcs = Canon(@)]
    [] p.t = UNSUBSCRIBE -> [p EXCEPT !.props = Props(@, p.t), !.topics = CanonAll(@)]
    [] OTHER -> p
=============================================================================
