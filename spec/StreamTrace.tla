---------------------------- MODULE StreamTrace ----------------------------
(* Decides whether what the real PacketStream returned is what Stream allows. A round: the peer sends bytes and
   may close the stream, then the reader reads until it has to wait. *)
EXTENDS Stream, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
DEFAULTMAX == 4194304
VARIABLES tr, rd, i, s
vars == <<tr, rd, i, s>>
T == Traces[tr]
R == T.rounds[rd]
Limit == IF T.max = 0 THEN DEFAULTMAX ELSE T.max
Has(r, k) == k \in DOMAIN r

Readable(p) ==
  CASE p.t \in ACKS -> [p EXCEPT !.props = <<>>]
    [] p.t = CONNECT -> [p EXCEPT !.user = [j \in 1..Len(@) |-> <<>>], !.pass = [j \in 1..Len(@) |-> <<>>]]
    [] OTHER -> p
Plain(p) == [x \in DOMAIN p \ {"noprops", "setrc", "nopl"} |-> p[x]]
Equal(p, q) == Norm(Plain(p)) = Norm(Plain(q))
IsPacket(res, d, bytes) ==
  /\ d.k = "ok" => /\ Equal(res.p, Readable(d.p))
                   /\ LET e == Dec(res.re) IN e.k \in {"ok", "odd"} /\ e.n = ILen(res.re) /\ Equal(e.p, d.p)
  /\ Has(res, "raw") => Canon(res.raw) = Canon(bytes)

Writes == \A j \in 1..Len(R.wrote) :
  LET w == R.wrote[j]
      d == Dec(w.b)
  IN w.ok = 1 /\ d.k \in {"ok", "odd"} /\ d.n = ILen(w.b) /\ Equal(d.p, R.write[j])

(* the round begins *)
Arrive ==
  /\ i = 0 /\ i' = 1 /\ Writes
  /\ s' = Closed(Sent(s, R.send), R.close)
  /\ UNCHANGED <<tr, rd>>
(* a call returns *)
Return ==
  /\ i > 0 /\ i <= Len(R.res) /\ ~s.over /\ i' = i + 1
  /\ LET d == Dec(s.buf)
         res == R.res[i]
     IN /\ res.r \in Answers(s, d, Limit)
        /\ IF res.r = "ok" THEN /\ IsPacket(res, d, Take(s.buf, d.n)[1])
                                /\ s' = Rest(s, d.n)
           ELSE s' = Over(s)
  /\ UNCHANGED <<tr, rd>>
(* no call is left but one that waits *)
Wait ==
  /\ i > Len(R.res) /\ i' = 0 /\ rd' = rd + 1
  /\ s.over \/ "wait" \in Answers(s, Dec(s.buf), Limit)
  /\ UNCHANGED <<tr, s>>

Init == tr \in 1..Len(Traces) /\ rd = 1 /\ i = 0 /\ s = Start
Next == rd <= Len(T.rounds) /\ (Arrive \/ Return \/ Wait)

Progress == TLCSet(tr, IF rd > TLCGet(tr) THEN rd ELSE TLCGet(tr))
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Report ==
  /\ \A j \in 1..Len(Traces) :
       \/ TLCGet(j) > Len(Traces[j].rounds)
       \/ PrintT("REJECTED " \o ToString(j) \o " " \o ToString(TLCGet(j)))
  /\ PrintT("CHECKED " \o ToString(Len(Traces)))
Spec == Init /\ [][Next]_vars
=============================================================================
