------------------------------- MODULE Topics -------------------------------
(* Topic names, topic filters and matching (MQTT 5, 4.7). A topic or filter is the sequence of its levels,
   each a string. *)
EXTENDS Sequences, Integers

Char(s, i) == SubSeq(s, i, i)
Has(s, ch) == \E i \in 1..Len(s) : Char(s, i) = ch

NonEmpty(t) == ~(Len(t) = 1 /\ t[1] = "")

(* A valid topic name has at least one character and no wildcard. *)
ValidName(t) ==
  /\ NonEmpty(t)
  /\ \A i \in 1..Len(t) : ~Has(t[i], "+") /\ ~Has(t[i], "#")

(* In a valid filter '+' is a whole level and '#' the whole last one. *)
ValidFilter(f) ==
  /\ NonEmpty(f)
  /\ \A i \in 1..Len(f) :
       /\ Has(f[i], "+") => f[i] = "+"
       /\ Has(f[i], "#") => (f[i] = "#" /\ i = Len(f))

Dollar(t) == Len(t[1]) > 0 /\ Char(t[1], 1) = "$"

Matches(f, t) ==
  LET n == Len(f)
      hash == f[n] = "#"
      k == IF hash THEN n - 1 ELSE n         \* levels matched one by one
  IN /\ IF hash THEN Len(t) >= k ELSE Len(t) = k
     /\ \A i \in 1..k : f[i] = "+" \/ f[i] = t[i]
     /\ ~(Dollar(t) /\ f[1] \in {"+", "#"})
=============================================================================
