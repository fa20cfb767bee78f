------------------------------ MODULE CodecMC ------------------------------
(* Checks the wire format itself: of every byte sequence of a bounded kind, that reading it is total, takes
   exactly one frame and is inverse to encoding; of every packet of a bounded kind, that encoding it is. *)
EXTENDS Codec
CONSTANTS BYTES,       \* of a body
          MAXBODY,     \* longest body
          HEADS,       \* first bytes
          PACKETS      \* whether packets are checked, or byte sequences

VARIABLES b, p, done
vars == <<b, p, done>>
None == [t |-> 0]

Bodies == UNION {[1..n -> BYTES] : n \in 0..MAXBODY}
(* packets: one optional property each, of a type allowed there *)
Str == {<<>>, <<97>>, <<195, 169>>}
Val(id) == CASE PropType[id] = "u8" -> {<<0>>, <<1>>} [] PropType[id] = "u16" -> {<<1>>, <<65535>>}
             [] PropType[id] = "u32" -> {<<0, 1>>, <<65535, 65535>>} [] PropType[id] = "vbi" -> {<<1>>, <<127>>, <<128>>, <<16384>>, <<268435455>>}
             [] PropType[id] = "str" -> Str [] PropType[id] = "bin" -> {<<0>>, <<255, 128>>}
PropsOf(t) == {<<>>} \cup {<<<<id, v>>>> : <<id, v>> \in UNION {{<<i, x>> : x \in Val(i)} : i \in Allowed[t] \ {38}}}
              \cup (IF 38 \in Allowed[t] THEN {<<<<38, x, y>>>> : x \in Str, y \in Str} \cup {<<<<38, <<97>>, <<1>>>>, <<38, <<97>>, <<2>>>>>>} ELSE {})
Wills == {<<>>} \cup {<<[props |-> q, topic |-> <<97>>, pl |-> l]>> : q \in PropsOf(WILL), l \in {<<>>, <<7>>}}
Opts == {<<>>, <<<<>>>>, <<<<120>>>>}
Connects ==
  {[t |-> CONNECT, fl |-> 0, ka |-> 60, cid |-> cid, props |-> q, will |-> w, user |-> u, pass |-> pw,
    cf |-> 2 * cs + (IF w = <<>> THEN 0 ELSE 4 + 8 * wq) + 64 * Len(pw) + 128 * Len(u)] :
     cid \in {<<>>, <<97>>}, q \in {<<>>, <<<<33, <<1>>>>>>}, w \in Wills, u \in Opts, pw \in Opts, cs \in {0, 1}, wq \in {0, 2}}
  \cup {[t |-> CONNECT, fl |-> 0, ka |-> 0, cid |-> <<>>, props |-> q, will |-> <<>>, user |-> <<>>, pass |-> <<>>, cf |-> 2] : q \in PropsOf(CONNECT)}
Packets ==
  Connects
  \cup {[t |-> CONNACK, fl |-> 0, af |-> a, rc |-> r, props |-> q] : a \in {0, 1}, r \in ReasonsOf[CONNACK], q \in PropsOf(CONNACK)}
  \cup {[t |-> PUBLISH, fl |-> f, topic |-> s, pid |-> IF f \div 2 = 0 THEN 0 ELSE 258, props |-> q, pl |-> l] :
          f \in {0, 1, 2, 5, 11, 12}, s \in {<<97>>, <<195, 169>>}, q \in PropsOf(PUBLISH), l \in {<<>>, <<0>>, <<1, 2>>}}
  \cup UNION {{[t |-> t, fl |-> Flags(t), pid |-> 258, rc |-> r, props |-> q] : r \in ReasonsOf[t], q \in PropsOf(t)} : t \in ACKS}
  \cup {[t |-> SUBSCRIBE, fl |-> 2, pid |-> 1, props |-> q, filters |-> f] : q \in PropsOf(SUBSCRIBE), f \in {<<<<<<97>>, 0>>>>, <<<<<<35>>, 46>>, <<<<>>, 1>>>>}}
  \cup {[t |-> UNSUBSCRIBE, fl |-> 2, pid |-> 1, props |-> q, topics |-> f] : q \in PropsOf(UNSUBSCRIBE), f \in {<<<<97>>>>, <<<<35>>, <<>>>>}}
  \cup UNION {{[t |-> t, fl |-> 0, pid |-> 1, props |-> q, rcs |-> <<r>>] : q \in PropsOf(t), r \in ReasonsOf[t]} : t \in {SUBACK, UNSUBACK}}
  \cup {[t |-> DISCONNECT, fl |-> 0, rc |-> r, props |-> q] : r \in ReasonsOf[DISCONNECT], q \in PropsOf(DISCONNECT)}
  \cup {[t |-> t, fl |-> 0] : t \in {PINGREQ, PINGRESP}}

Init == /\ done = FALSE
        /\ \/ ~PACKETS /\ p = None /\ b \in {<<h>> \o Vbi(Len(x)) \o x : h \in HEADS, x \in Bodies}
           \/ PACKETS /\ b = <<>> /\ p \in Packets
Next == ~done /\ done' = TRUE /\ UNCHANGED <<b, p>>
Spec == Init /\ [][Next]_vars

Readable(d) == d.k \in {"ok", "odd"}
(* every byte sequence is one of these, and which does not depend on what follows the frame *)
Total == p = None =>
  LET d == Dec(b) IN
  /\ d.k \in {"need", "hopeless", "err", "ok", "odd"}
  /\ d.k \notin {"need", "hopeless"}                                   \* these are complete frames
  /\ Dec(b \o <<255>>) = d /\ Dec(b \o b) = d
  /\ \A n \in 0..Len(b) - 1 : Dec(SubSeq(b, 1, n)).k \in {"need", "hopeless"}
  /\ Readable(d) => d.n = Len(b)
(* what can be read encodes to something read the same way, at most a property length longer *)
ReEncoded == p = None =>
  LET d == Dec(b) IN
  Readable(d) /\ d.p.t # AUTH => LET e == Dec(Enc(d.p)) IN Readable(e) /\ e.p = d.p /\ e.n = ILen(Enc(d.p)) /\ (d.k = "ok" => e.k = "ok" /\ e.n <= d.n + 1)
(* what can be encoded is read as it was *)
RoundTrip == p # None =>
  LET e == Enc(p) IN /\ Fits(p) /\ Dec(e) = [k |-> "ok", n |-> Len(e), p |-> p]
                     /\ VbiAt(Tail(e)).v = Len(Body(p)) /\ ~VbiAt(Tail(e)).long
=============================================================================
