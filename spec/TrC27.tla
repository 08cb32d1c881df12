---- MODULE TrC27 ----
\* C27: log skeleton: a relation holds when every occurrence of its first activity satisfies it
EXTENDS Logs
VARIABLE l
Occ(w, a) == {i \in DOMAIN w : w[i] = a}
\* the occurrence i of w satisfies the relation k with the activity b
Sat(k, w, i, b) ==
  CASE k = "equivalence" -> Cardinality(Occ(w, b)) = Cardinality(Occ(w, w[i])) /\ b # w[i]
    [] k = "always_after" -> \E j \in DOMAIN w : j > i /\ w[j] = b
    [] k = "always_before" -> \E j \in DOMAIN w : j < i /\ w[j] = b
    [] k = "never_together" -> b # w[i] /\ Occ(w, b) = {}
    [] k = "directly_follows" -> i < Len(w) /\ w[i + 1] = b
Kinds == {"equivalence", "always_after", "always_before", "never_together", "directly_follows"}
Share(k, L, a, b) == Cardinality({p \in Where(L) : L[p[1]][p[2]] = a /\ Sat(k, L[p[1]], p[2], b)})
Total(L, a) == Cardinality({p \in Where(L) : L[p[1]][p[2]] = a})
\* noise q = <<n, d>>: at least a share 1 - n/d of the occurrences of a; pairs never seen are not relations
Relation(k, L, q) == {<<a, b>> \in Acts(L) \X Acts(L) : Share(k, L, a, b) > 0 /\ Share(k, L, a, b) * q[2] >= Total(L, a) * (q[2] - q[1])}
FreqOf(L, a, n) == Cardinality({c \in DOMAIN L : Cardinality(Occ(L[c], a)) = n})
\* the frequencies kept: the most common ones, as few as reach the share 1 - n/d of the cases
Kept(L, a, q, K) ==
  LET F == {Cardinality(Occ(L[c], a)) : c \in DOMAIN L}
      Sum(S) == SumFun([n \in S |-> FreqOf(L, a, n)], S)
      Enough(S) == Sum(S) * q[2] >= Len(L) * (q[2] - q[1])
  IN  /\ K # {} /\ K \subseteq F
      /\ \A n \in K, m \in F \ K : FreqOf(L, a, n) >= FreqOf(L, a, m)
      /\ Enough(K)
      /\ Cardinality(K) > 1 => \E n \in K : (\A m \in K : FreqOf(L, a, m) >= FreqOf(L, a, n)) /\ ~ Enough(K \ {n})
Disc(r) == LET L == r.w IN
  [relations |-> \A k \in Kinds : Exact(r.out[k], Relation(k, L, r.noise)),
   frequencies |-> NoDup([i \in DOMAIN r.freq |-> r.freq[i][1]]) /\ {x[1] : x \in Range(r.freq)} = Acts(L) /\ \A x \in Range(r.freq) : NoDup(x[2]) /\ Kept(L, x[1], r.noise, Range(x[2])),
   variants |-> \A k \in Kinds : r.noise[1] = 0 => Exact(r.vout[k], Relation(k, L, r.noise))]
\* conformance
Violated(m, w, k) == {p \in Range(m.rel[k]) : Occ(w, p[1]) # {} /\ \E i \in Occ(w, p[1]) :
                         IF k = "equivalence" THEN Cardinality(Occ(w, p[2])) # Cardinality(Occ(w, p[1])) ELSE IF k = "never_together" THEN Occ(w, p[2]) # {} ELSE ~ Sat(k, w, i, p[2])}
Active(m, w, k) == {p \in Range(m.rel[k]) : Occ(w, p[1]) # {}}
FreqActs(m) == {x[1] : x \in Range(m.freq)}
FreqDev(m, w) ==
  LET In(a) == Occ(w, a) # {}
  IN  {<<x[1], Cardinality(Occ(w, x[1]))>> : x \in {y \in Range(m.freq) : IF In(y[1]) THEN Cardinality(Occ(w, y[1])) \notin Range(y[2]) ELSE 0 \notin Range(y[2])}}
      \cup {<<a, 0>> : a \in Range(w) \ FreqActs(m)}
FreqTot(m, w) == Cardinality(Range(w) \cup {x[1] : x \in {y \in Range(m.freq) : 0 \notin Range(y[2])}})
Rel(m, K) == K \cap Kinds
NDev(m, w, K) == SumFun([k \in Rel(m, K) |-> Cardinality(Violated(m, w, k))], Rel(m, K)) + (IF "activ_freq" \in K THEN Cardinality(FreqDev(m, w)) ELSE 0)
NTot(m, w, K) == SumFun([k \in Rel(m, K) |-> Cardinality(Active(m, w, k))], Rel(m, K)) + (IF "activ_freq" \in K THEN FreqTot(m, w) ELSE 0)
Conf(r) ==
  LET m == r.m
      K == Range(r.cons)
      Of(i, k) == {p \in Range(r.out[i].dev) : p[1] = k}
  IN  [cases |-> Len(r.out) = Len(r.w),
       deviations |-> \A i \in DOMAIN r.out : \A k \in Kinds :
          LET D == Of(i, k) V == IF k \in K THEN Violated(m, r.w[i], k) ELSE {}
          IN  IF V = {} THEN D = {} ELSE Cardinality(D) = 1 /\ \A d \in D : Exact(d[2], V),
       frequencies |-> \A i \in DOMAIN r.out :
          LET D == FilterSeq(r.out[i].dev, LAMBDA d : d[1] = "activ_freq")
          IN  Exact([j \in DOMAIN D |-> D[j][2]], IF "activ_freq" \in K THEN FreqDev(m, r.w[i]) ELSE {}),
       totals |-> \A i \in DOMAIN r.out : r.out[i].n = NDev(m, r.w[i], K) /\ r.out[i].tot = NTot(m, r.w[i], K),
       fitness |-> \A i \in DOMAIN r.out : LET d == NDev(m, r.w[i], K) t == NTot(m, r.w[i], K)
                                           IN  r.out[i].fit = (d = 0) /\ RatEq(r.out[i].f, IF t = 0 THEN <<1, 1>> ELSE <<t - d, t>>),
       own_log_conforms |-> r.own => \A i \in DOMAIN r.out : r.out[i].fit]
Check(r) == CASE r.op = "disc" -> Disc(r) [] r.op = "conf" -> Conf(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
