---- MODULE TrC26 ----
\* C26: DECLARE discovery (support and confidence of every constraint, thresholds) and conformance checking
EXTENDS Declare
VARIABLE l
\* what must be in the discovered model: every template of the allowed ones and every pair of the considered activities
Candidates(r) == {<<t, a, "">> : t \in Range(r.tm) \cap Templates1, a \in Range(r.acts)}
                 \cup {<<t, a, b>> \in (Range(r.tm) \cap Templates2) \X Range(r.acts) \X Range(r.acts) : a # b}
Disc(r) ==
  LET A == Range(r.acts)
      L == [i \in DOMAIN r.w |-> Project(r.w[i], A)]
      N == Len(L)
      T == {<<k, Support(k[1], k[2], k[3], L), Confidence(k[1], k[2], k[3], L)>> : k \in Candidates(r)}
      O == {<<<<x[1], x[2], x[3]>>, x[4], x[5]>> : x \in Range(r.out)}
      Best == {x \in T : x[2] > 0 /\ \A y \in T : y[2] > 0 => x[3] >= y[3]}
      \* thresholds <<num, den>> as compared with support / N and confidence / support; the automatic ones are 4/5 of a best constraint
      Auto == {<<<<4 * x[2], 5 * N>>, <<4 * x[3], 5 * x[2]>>>> : x \in Best}
      Thr == IF r.ms # <<>> /\ r.mc # <<>> THEN {<<r.ms, r.mc>>}
             ELSE {<<IF r.ms = <<>> THEN p[1] ELSE r.ms, IF r.mc = <<>> THEN p[2] ELSE r.mc>> : p \in Auto}
      Auto1 == r.ms = <<>>
      Auto2 == r.mc = <<>>
      \* 1: certainly above the threshold, 0: at a computed threshold (rounding), -1: not above
      Cmp(v, n, q, au) == IF v * q[2] > n * q[1] THEN 1 ELSE IF v * q[2] = n * q[1] /\ au THEN 0 ELSE -1
      Fits(p) == \A x \in T :
        LET s == Cmp(x[2], N, p[1], Auto1)
            c == Cmp(x[3], x[2], p[2], Auto2)
        IN  /\ (s = 1 /\ c = 1 => x \in O)
            /\ (s = -1 \/ c = -1 => x \notin O)
  IN  [counts |-> O \subseteq T /\ NoDup(r.out),
       thresholds |-> IF Thr = {} THEN O = {} ELSE \E p \in Thr : Fits(p)]
Conf(r) ==
  LET M == Range(r.model)
      Dev(w) == {k \in M : ~ Holds(k[1], k[2], k[3], w)}
      R(i) == r.out[i]
  IN  [cases |-> Len(r.out) = Len(r.w),
       deviations |-> \A i \in DOMAIN r.out : NoDup(R(i).dev) /\ Range(R(i).dev) = Dev(r.w[i]),
       totals |-> \A i \in DOMAIN r.out : R(i).tot = Cardinality(M) /\ R(i).n = Cardinality(Dev(r.w[i])),
       fitness |-> \A i \in DOMAIN r.out : R(i).fit = (Dev(r.w[i]) = {}) /\ RatEq(R(i).f, IF M = {} THEN <<1, 1>> ELSE <<Cardinality(M) - Cardinality(Dev(r.w[i])), Cardinality(M)>>)]
Check(r) == CASE r.op = "disc" -> Disc(r) [] r.op = "conf" -> Conf(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
