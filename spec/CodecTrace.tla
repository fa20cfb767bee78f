---------------------------- MODULE CodecTrace ----------------------------
(* Decides whether what the real encoder and decoder did is what Codec prescribes. Every trace is an initial
   state; its rounds are independent calls. *)
EXTENDS Codec, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, rd
vars == <<tr, rd>>
T == Traces[tr]
R == T.rounds[rd]
Has(r, k) == k \in DOMAIN r

(* What the API shows of a packet once it is built or decoded. *)
Readable(p) ==
  CASE p.t \in ACKS -> [p EXCEPT !.props = <<>>]
    [] p.t = CONNECT -> [p EXCEPT !.user = [i \in 1..Len(@) |-> <<>>], !.pass = [i \in 1..Len(@) |-> <<>>]]
    [] OTHER -> p
Plain(p) == [x \in DOMAIN p \ {"noprops", "setrc", "nopl", "was", "alt"} |-> p[x]]
Equal(p, q) == Norm(Plain(p)) = Norm(Plain(q))

(* b is an encoding of p. MQTT leaves the order of properties to the sender. *)
Encodes(b, p) ==
  LET d == Dec(b) IN
  /\ d.k \in {"ok", "odd"}
  /\ d.n = ILen(b)
  /\ Equal(d.p, p)
  /\ d.k = "ok" \/ Dec(Enc(Plain(p))).k = "odd"
HasProps(p) == p.t \notin {PINGREQ, PINGRESP}
PropSize(p) ==
  IF ~HasProps(p) THEN 0
  ELSE ILen(PropBytes(p.props)) + (IF p.t = UNSUBACK /\ \A i \in 1..Len(p.props) : p.props[i][1] # 31 THEN 3 ELSE 0)
Encoded ==
  LET p == R.p
      b == R.res.b
      rest == ILen(b) - 1 - VbiAt(Take(b, 1)[2]).n
  IN IF ~Fits(p) THEN R.res.r = "err"
     ELSE /\ R.res.r = "ok"
          /\ Encodes(b, p)
          /\ R.res.size = rest /\ R.res.psize = PropSize(p)
          /\ R.back.r = "ok" /\ R.back.n = ILen(b)
          /\ Equal(R.back.p, Readable(p))
          /\ R.back.eq = 1 \/ Has(p, "nopl") \/ Has(p, "setrc") \/ (Has(p, "was") /\ p.t \in ACKS /\ p.rc = 0)

Decoded ==
  LET d == Dec(R.b) IN
  CASE d.k = "need" -> R.res.r = "need"
    [] d.k = "hopeless" -> R.res.r \in {"need", "err"}
    [] d.k = "err" -> R.res.r = "err"
    [] d.k = "odd" -> R.res.r = "err" \/ (R.res.r = "ok" /\ R.res.n = d.n)
    [] d.k = "ok" -> /\ R.res.r = "ok" /\ R.res.n = d.n
                     /\ Equal(R.res.p, Readable(d.p))
                     /\ Encodes(R.res.re, d.p)

Code(d, c) ==
  CASE d.k = "need" -> c = 0
    [] d.k = "hopeless" -> c \in {0, 1}
    [] d.k = "err" -> c = 1
    [] d.k = "odd" -> c \in {1, 3 + d.n}
    [] d.k = "ok" -> c = 3 + d.n
Swept == \A v \in 0..255 : Code(Dec([R.b EXCEPT ![R.i] = v]), R.res[v + 1])
Begun == \A n \in 0..Len(R.b) - 1 : Code(Dec(SubSeq(R.b, 1, n)), R.res[n + 1])

Varint ==
  IF R.hi >= 4096 THEN R.res.r = "err"
  ELSE LET v == 65536 * R.hi + R.lo IN
       R.res.r = "ok" /\ R.res.b = Vbi(v) /\ R.res.size = Len(Vbi(v)) /\ R.res.back = << <<R.hi, R.lo>>, Len(Vbi(v)) >>

Right == CASE R.op = "enc" -> Encoded
           [] R.op = "dec" -> Decoded
           [] R.op = "sweep" -> Swept
           [] R.op = "pre" -> Begun
           [] R.op = "storm" -> R.res.panics = 0
           [] R.op = "vbi" -> Varint

Init == tr \in 1..Len(Traces) /\ rd = 1
Next == rd <= Len(T.rounds) /\ Right = TRUE /\ rd' = rd + 1 /\ UNCHANGED tr

Progress == TLCSet(tr, IF rd > TLCGet(tr) THEN rd ELSE TLCGet(tr))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report ==
  /\ \A i \in 1..Len(Traces) :
       \/ TLCGet(i) > Len(Traces[i].rounds)
       \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(i)))
  /\ PrintT("CHECKED " \o ToString(Len(Traces)))
Spec == Init /\ [][Next]_vars
=============================================================================
