------------------------------ MODULE StreamMC ------------------------------
(* The way PacketStream works, a buffer that is filled by reads and doubled up to a limit, against Stream: however
   the bytes are cut into reads, whenever a call is abandoned and whatever the sizes, every answer is one of those
   Stream allows. *)
EXTENDS Stream
CONSTANTS MAXPACKETS, INITS, LIMITS

VARIABLES s,           \* Stream's state
          wire,        \* bytes sent and not read
          tosend,      \* bytes the peer has not sent
          buf, cap, max, \* the reader's buffer, its size and limit
          calling,     \* a call waits or works
          last         \* <<what the last call returned, what Stream allows>>
vars == <<s, wire, tosend, buf, cap, max, calling, last>>

Small == {<<192, 0>>, <<48, 3, 0, 1, 97>>, <<64, 2, 0, 1>>, <<208, 1, 0>>, <<16, 255, 255, 255, 255>>, <<48, 130, 0, 0, 0>>}
RECURSIVE Joined(_)
Joined(n) == IF n = 0 THEN {<<>>} ELSE {x \o y : x \in Small, y \in Joined(n - 1)}
Streams == UNION {Joined(n) : n \in 1..MAXPACKETS} \cup {<<48>>, <<48, 3, 0>>, <<48, 9, 0, 1>>}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ s = Start /\ wire = <<>> /\ tosend \in Streams /\ buf = <<>> /\ max \in LIMITS /\ cap \in {Max2(1, Min2(i, max)) : i \in INITS}
  /\ calling = FALSE /\ last = <<"ok", {"ok"}>>

Sends == /\ tosend # <<>> /\ s.closed = 0
         /\ \E n \in 1..Len(tosend) :
              /\ wire' = wire \o SubSeq(tosend, 1, n) /\ s' = Sent(s, SubSeq(tosend, 1, n))
              /\ tosend' = SubSeq(tosend, n + 1, Len(tosend))
         /\ UNCHANGED <<buf, cap, max, calling, last>>
Closes == /\ s.closed = 0 /\ s' = Closed(s, 1) /\ UNCHANGED <<wire, tosend, buf, cap, max, calling, last>>
Calls == /\ ~calling /\ ~s.over /\ calling' = TRUE /\ UNCHANGED <<s, wire, tosend, buf, cap, max, last>>
Cancels == /\ calling /\ calling' = FALSE /\ UNCHANGED <<s, wire, tosend, buf, cap, max, last>>

Returns(r, n) ==
  /\ last' = <<r, Answers(s, Dec(s.buf), max)>> /\ calling' = FALSE
  /\ s' = IF r = "ok" THEN Rest(s, n) ELSE Over(s)
  /\ buf' = SubSeq(buf, n + 1, Len(buf))
  /\ UNCHANGED <<wire, tosend, cap, max>>
Works ==
  /\ calling /\ ~s.over
  /\ LET d == Dec(buf)
         more == d.k \in {"need", "hopeless"}
     IN IF ~more THEN Returns(IF d.k = "err" THEN "err" ELSE "ok", IF d.k = "err" THEN 0 ELSE d.n)
        ELSE IF Len(buf) >= max THEN Returns("err", 0)
        ELSE IF wire # <<>>
             THEN \E n \in 1..Min2(Len(wire), cap - Len(buf)) :
                    /\ buf' = buf \o SubSeq(wire, 1, n) /\ wire' = SubSeq(wire, n + 1, Len(wire))
                    /\ cap' = IF Len(buf) + n >= cap THEN Min2(2 * cap, max) ELSE cap
                    /\ UNCHANGED <<s, tosend, max, calling, last>>
             ELSE s.closed = 1 /\ Returns(IF buf = <<>> THEN "none" ELSE "err", 0)
Next == Sends \/ Closes \/ Calls \/ Cancels \/ Works
Spec == Init /\ [][Next]_vars

Allowed1 == last[1] \in last[2]
(* the reader never waits when it should answer: it has all there is and its call is open *)
Waits == calling /\ ~s.over /\ wire = <<>> /\ s.closed = 0 /\ Len(buf) < max /\ Dec(buf).k \in {"need", "hopeless"}
WaitsRightly == Waits => "wait" \in Answers(s, Dec(s.buf), max)
NoByteLost == ~s.over => s.buf = buf \o wire
RoomToRead == calling /\ ~s.over /\ Dec(buf).k \in {"need", "hopeless"} /\ Len(buf) < max => Len(buf) < cap
=============================================================================
