---- MODULE TrC17 ----
\* Case-level filters: the kept cases are exactly those satisfying the condition, and they are kept complete.
EXTENDS Filters
VARIABLE l
Ids(S) == {c.id : c \in S}
OutIds(r) == [i \in DOMAIN r.out |-> r.out[i].id]
KeptSet(r) == {k \in DOMAIN r.w : r.w[k].id \in Range(OutIds(r))}
\* these filters are not defined on cases without events
Free(r) == IF r.f \in {"start", "end", "attr"} THEN {c.id : c \in {d \in Range(r.w) : d.ev = <<>>}} ELSE {}
Complete(r) == /\ NoDup(OutIds(r))
               /\ \A i \in DOMAIN r.out : \E k \in DOMAIN r.w : r.w[k] = r.out[i]
Dist(r, K) == {Word(r.w[k]) : k \in K}
Check(r) ==
  CASE r.op = "filter" ->
         [exactly_the_matching |-> Range(OutIds(r)) \ Free(r) = {r.w[k].id : k \in Kept(r)} \ Free(r),
          kept_complete |-> Complete(r)]
    [] r.op = "topk" ->
         LET K == KeptSet(r)
         IN  [whole_variants |-> \A k \in K : \A j \in DOMAIN r.w : Word(r.w[j]) = Word(r.w[k]) => j \in K,
              number_of_variants |-> Cardinality(Dist(r, K)) = Min2(r.x, Cardinality(Dist(r, DOMAIN r.w))),
              most_frequent |-> \A k \in K : \A j \in DOMAIN r.w \ K : VarN(r.w, k) >= VarN(r.w, j),
              kept_complete |-> Complete(r)]
    [] r.op = "ncases" ->
         [number_of_cases |-> Len(r.out) = Min2(r.x, Len(r.w)),
          kept_complete |-> Complete(r)]
    [] r.op = "varperc" ->
         \* the most frequent variants until the share is reached, then also those as frequent as the last one
         LET K == KeptSet(r)
             G(n) == {k \in DOMAIN r.w : VarN(r.w, k) >= n}
             T == {n \in 1..Len(r.w) : Cardinality(G(n)) * r.den >= r.num * Len(r.w) /\ G(n) # {}}
         IN  [variants_until_share |-> K = G(SetMax(T)),
              kept_complete |-> Complete(r)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
