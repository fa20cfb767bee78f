----------------------------- MODULE StreamGen -----------------------------
(* Generates scripts for the stream driver: packets and what follows them, cut into pieces; where calls are
   abandoned; where the stream ends; buffer sizes and limits near the packet sizes. *)
EXTENDS Codec, Json, IOUtils

Gen == INSTANCE CodecGen WITH done <- FALSE
Pick(q) == q[RandomElement(1..Len(q))]
Of(S) == RandomElement(S)
Once(n) == Of(1..n) = 1
With(v, f(_)) == CHOOSE y \in {f(x) : x \in {v}} : TRUE
Profile == IOEnv.PROFILE
DEPTH == atoi(IOEnv.DEPTH)
VARIABLE done

Bulky(d) ==                                     \* a publish of about n bytes
  With(Pick(<<20, 60, 120, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1024, 4000, 4095, 4096, 4097, 5000, 8192, 9000, 20000>>), LAMBDA n :
       Enc([t |-> PUBLISH, fl |-> 0, pid |-> 0, topic |-> <<116>>, props |-> <<>>, pl |-> <<60>> \o Run(120, n) \o <<62>>]))
PacketBytes(d) == CASE Once(4) -> Bulky(0) [] Once(4) -> <<192, 0>> [] Once(3) -> Enc(Gen!Packet(Pick(<<4, 5, 6, 7, 14>>))) [] OTHER -> Gen!Small(Pick(Gen!Weighted))
Broken(d) == CASE Once(3) -> Gen!Damage(Gen!Small(Pick(Gen!Weighted))) [] Once(2) -> Gen!Spoilt(Pick(Gen!Weighted)) [] OTHER -> Gen!Random(0)

Large(d) == [t |-> PUBLISH, fl |-> 0, pid |-> 0, topic |-> <<116>>, props |-> <<>>, pl |-> <<60>> \o Run(120, Of(1..40) * 10007) \o <<62>>]

(* The cuts of n bytes, as a sorted sequence of offsets ending with n. *)
Cuts(n, ends) ==
  With(CASE Once(5) -> {}
         [] Once(5) /\ n <= 60 -> 1..n
         [] Once(4) -> ends
         [] Once(3) -> UNION {{e - 1, e, e + 1} : e \in ends} \cup {1, 2}
         [] Once(3) -> {e + Of({1, 2, 3}) : e \in ends} \cup {Of(1..2)}
         [] OTHER -> {Of(1..n) : i \in 1..Of(1..12)},
       LAMBDA C : SetToSortSeq({c \in C : c > 0 /\ c < n} \cup {n}, <))
RECURSIVE Starts(_, _)
Starts(ps, at) == IF ps = <<>> THEN {} ELSE LET e == at + ILen(ps[1]) IN {e} \cup Starts(Tail(ps), e)
Piece(b, from, to) == Take(Take(b, to)[1], from)[2]
Round(b, cuts, j, raw, cancel) ==
  [send |-> Piece(b, IF j = 1 THEN 0 ELSE cuts[j - 1], cuts[j]), close |-> 0,
   raw |-> IF raw = 2 THEN Of(0..1) ELSE raw, cancel |-> IF cancel = 2 THEN Of(0..1) ELSE cancel,
   write |-> IF Once(15) THEN [k \in 1..Of(1..2) |-> IF Once(3) THEN Large(k) ELSE Gen!Packet(Pick(Gen!Weighted))] ELSE <<>>]
Ending(k) == [send |-> <<>>, close |-> k, raw |-> Of(0..1), cancel |-> 0, write |-> <<>>]

(* the whole stream, at times followed by something malformed, or cut off *)
Script(ps) ==
  LET ends == Starts(ps, 0)
      all == FlattenSeq(ps)
      sizes == [k \in 1..Len(ps) |-> ILen(ps[k])]
      biggest == Max({sizes[k] : k \in 1..Len(ps)})
  IN With(<<CASE Once(3) -> all \o Broken(0) [] Once(3) -> Take(all, Of(1..ILen(all)))[1] [] OTHER -> all, Of(0..2), Of(0..2)>>, LAMBDA x :
       With(Cuts(ILen(x[1]), ends), LAMBDA cuts :
         [tls |-> Pick(<<0, 0, 1, 2>>), slow |-> Pick(<<0, 1>>), init |-> Pick(<<0, 1, 2, 3, 5, 8, 16, 17, 64, 100, 128, 256, 4096, biggest, biggest + 1>>) + (IF Once(2) THEN 0 ELSE 1),
          max |-> IF Profile = "S02" /\ ~Once(4) THEN Max({1, Pick(sizes) + Pick(<<-1, 0, 0, 1, 2>>)}) ELSE IF Once(4) THEN biggest + Of(0..3) ELSE 0,
          rounds |-> [j \in 1..Len(cuts) |-> Round(x[1], cuts, j, x[2], x[3])]
                     \o (IF Profile = "S02" \/ Once(2) THEN <<Ending(Pick(<<1, 1, 1, 2>>))>> ELSE <<>>)]))
(* packets at the default limit *)
Limits(d) ==
  With(<<4194304 + Of({-1, 0, 0, 1}), Of({3000000, 4194300, 100})>>, LAMBDA n :
    LET p == [t |-> PUBLISH, fl |-> 0, pid |-> 0, topic |-> <<116>>, props |-> <<>>, pl |-> <<>>]
        b == Enc([p EXCEPT !.pl = <<60>> \o Run(120, n[1] - 11) \o <<62>>])
        all == <<192, 0>> \o b \o <<192, 0>>
        r(q) == [send |-> q, close |-> 0, raw |-> 0, cancel |-> 1, write |-> <<>>]
    IN [tls |-> Pick(<<0, 0, 1, 2>>), slow |-> 0, init |-> Pick(<<4096, 65536, 8000000, 1000>>), max |-> 0,
        rounds |-> <<r(Take(all, n[2])[1]), r(Take(all, n[2])[2]), Ending(1)>>])

Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ PrintT(<<"SCRIPT", ToJson(IF Profile = "LIMIT" THEN Limits(0) ELSE With([k \in 1..Of(1..DEPTH) |-> PacketBytes(k)], LAMBDA ps : Script(ps)))>>)
Spec == Init /\ [][Next]_done
=============================================================================
