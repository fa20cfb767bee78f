------------------------------- MODULE Stream -------------------------------
(* Reading packets from a byte stream. The state is what the peer has sent and no call has returned, whether
   and how the peer closed the stream, and whether the reader is done with it. A call of read is answered by
   what is at the front of those bytes; how they arrived and whether earlier calls were abandoned plays no part. *)
EXTENDS Codec

Start == [buf |-> <<>>, closed |-> 0, over |-> FALSE]        \* closed: 1 by the peer, 2 reset
Sent(s, bytes) == [s EXCEPT !.buf = @ \o bytes]
Closed(s, how) == [s EXCEPT !.closed = IF @ = 0 THEN how ELSE @]
Rest(s, n) == [s EXCEPT !.buf = Take(@, n)[2]]
Over(s) == [s EXCEPT !.over = TRUE, !.buf = <<>>]

(* The length of the frame at the front as far as it is known. *)
Known(b) == IF ILen(b) < 2 THEN 0
            ELSE LET x == VbiAt(Take(b, 1)[2]) IN IF x.n <= 0 THEN 0 ELSE 1 + x.n + x.v

(* What a call returns that finds buffered bytes b: the set of "ok", "none", "err" and "wait" it may choose from. *)
Answers(s, d, max) ==
  LET b == s.buf
      n == ILen(b)
      begun == d.k \in {"need", "hopeless"}
  IN IF begun THEN
       IF n >= max \/ s.closed = 2 THEN {"err"}
       ELSE IF s.closed = 1 THEN (IF n = 0 THEN {"none"} ELSE {"err"})
       ELSE IF d.k = "hopeless" \/ Known(b) > max THEN {"err", "wait"}
       ELSE {"wait"}
     ELSE IF d.k = "err" THEN {"err"}
     ELSE IF d.n > max THEN {"err"}
     ELSE IF d.k = "odd" THEN {"ok", "err"}
     ELSE {"ok"}
=============================================================================
