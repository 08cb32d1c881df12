---- MODULE Times ----
(* Time arithmetic: measures of unions of intervals, aggregates, business hours. *)
EXTENDS Logs
\* length of the union of a set of closed intervals <<s, e>>
Measure(I) ==
  LET J == {x \in I : x[1] < x[2]}
      P == {x[1] : x \in J} \cup {x[2] : x \in J}
      Next2(p) == SetMin({q \in P : q > p})
      C == {p \in P : \E x \in J : x[1] <= p /\ p < x[2]}
  IN  SumFun([p \in C |-> Next2(p) - p], C)
Sorted(s) == SortSeq(s, LAMBDA x, y : x < y)
SumSq(s) == SumSeq([i \in DOMAIN s |-> s[i] * s[i]])
\* aggregate of a non-empty sequence of integers as a rational (the standard deviation squared)
Agg(how, s) ==
  LET n == Len(s)
      z == Sorted(s)
  IN  CASE how = "mean" -> <<SumSeq(s), n>>
        [] how = "median" -> IF n % 2 = 1 THEN <<z[(n + 1) \div 2], 1>> ELSE <<z[n \div 2] + z[n \div 2 + 1], 2>>
        [] how = "min" -> <<z[1], 1>>
        [] how = "max" -> <<z[n], 1>>
        [] how = "sum" -> <<SumSeq(s), 1>>
        [] how = "var" -> IF n = 1 THEN <<0, 1>> ELSE <<n * SumSq(s) - SumSeq(s) * SumSeq(s), n * (n - 1)>>
Week == 7 * 24 * 3600
\* seconds of [s, e] inside the weekly slots; time 0 is Monday 08:00
Business(slots, s, e) ==
  IF e <= s THEN 0
  ELSE LET o == 8 * 3600
           K == 0..((e + o) \div Week)
       IN  Measure(UNION {{<<Max2(s, slots[i][1] + k * Week - o), Min2(e, slots[i][2] + k * Week - o)>> : i \in DOMAIN slots} : k \in K})
\* elapsed time between two instants, in business hours if slots are given
Elapsed(bh, s, e) == IF bh = <<>> THEN e - s ELSE Business(bh, s, e)
\* ordered list of the elements of a set of pairs (c, i)
PosSeq(S, n) == \* pairs ordered by case, then position
  SortSeq(SetToSeqAny(S), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
====
