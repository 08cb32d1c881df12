---- MODULE TrC28 ----
\* C28: temporal profile: mean and (sample) deviation of the elapsed time of every pair of events that follow each other; deviations beyond zeta
EXTENDS Times
VARIABLE l
\* elapsed times in units of r.u seconds
El(r, p) == Elapsed(r.bh, r.ev[p[1]][p[2]].t, r.ev[p[1]][p[3]].s) \div r.u
Pair(ev, p) == <<ev[p[1]][p[2]].a, ev[p[1]][p[3]].a>>
Values(r, ab) == LET P == {p \in EfPairs(r.ev, FALSE) : Pair(r.ev, p) = ab}
                     Q == SetToSeqAny(P)
                 IN  [i \in DOMAIN Q |-> El(r, Q[i])]
Disc(r) ==
  LET K == {Pair(r.ev, p) : p \in EfPairs(r.ev, FALSE)}
  IN  [pairs |-> NoDup([i \in DOMAIN r.out |-> r.out[i][1]]) /\ {x[1] : x \in Range(r.out)} = K,
       mean |-> \A x \in Range(r.out) : x[1] \in K => RatEq(x[2], Agg("mean", Values(r, x[1]))),
       deviation |-> \A x \in Range(r.out) : x[1] \in K => RatEq(x[3], Agg("var", Values(r, x[1])))]
\* the profile: a set of <<pair, mean, variance>> (rationals); zeta a rational
\* sign of (v - mean)^2 - zeta^2 * var, the numbers being small enough
Beyond(v, m, s2, z) ==
  LET d == Abs(v * m[2] - m[1])
      x == d * d * s2[2] * z[2] * z[2]
      y == z[1] * z[1] * s2[1] * m[2] * m[2]
  IN  IF x > y THEN 1 ELSE IF x = y THEN 0 ELSE -1
Conf(r) ==
  LET Prof == Range(r.prof)
      \* the deviations of case c: <<pair, elapsed, deviation as a multiple of the standard deviation>>
      Cand(c) == {<<p, x>> \in {q \in EfPairs(r.ev, FALSE) : q[1] = c} \X Prof : Pair(r.ev, p) = x[1]}
      B(k) == Beyond(El(r, k[1]), k[2][2], k[2][3], r.z)
      \* bag of pairs with elapsed times: how often each one is reported
      N(c, ab, v) == Cardinality({i \in DOMAIN r.out[c] : <<r.out[c][i][1], r.out[c][i][2]>> = <<ab, v>>})
      M(c, ab, v, S) == Cardinality({k \in Cand(c) : k[2][1] = ab /\ El(r, k[1]) = v /\ B(k) \in S})
      All(c) == {<<k[2][1], El(r, k[1])>> : k \in Cand(c)} \cup {<<x[1], x[2]>> : x \in Range(r.out[c])}
      Z(x) == CHOOSE y \in Prof : y[1] = x[1]
  IN  [cases |-> Len(r.out) = Len(r.ev),
       deviations |-> \A c \in DOMAIN r.ev : \A k \in All(c) : N(c, k[1], k[2]) >= M(c, k[1], k[2], {1}) /\ N(c, k[1], k[2]) <= M(c, k[1], k[2], IF r.exact THEN {1} ELSE {0, 1}),
       zeta |-> r.exact => \A c \in DOMAIN r.out : \A x \in Range(r.out[c]) :
          LET y == Z(x) IN IF y[3][1] = 0 THEN x[3] = <<-1, 1>>
                           ELSE RatEq(<<x[3][1] * x[3][1], x[3][2] * x[3][2]>>, LET d == Abs(x[2] * y[2][2] - y[2][1]) IN <<d * d * y[3][2], y[2][2] * y[2][2] * y[3][1]>>),
       diagnostics |-> r.diag = Flatten([c \in DOMAIN r.out |-> [i \in DOMAIN r.out[c] |-> <<c, r.out[c][i][1], r.out[c][i][2], r.out[c][i][3]>>]])]
Check(r) == CASE r.op = "disc" -> Disc(r) [] r.op = "conf" -> Conf(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
