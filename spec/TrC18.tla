---- MODULE TrC18 ----
\* Event-level filters: every case keeps exactly the documented events, in order.
EXTENDS Filters
VARIABLE l
All(r) == Flatten([k \in DOMAIN r.w |-> r.w[k].ev])
Val(r, e) == e[r.field]
\* share of events (or of cases) showing the value x
InCases(r, x) == Cardinality({k \in DOMAIN r.w : \E i \in DOMAIN r.w[k].ev : Val(r, r.w[k].ev[i]) = x})
InEvents(r, x) == LET A == All(r) IN Cardinality({i \in DOMAIN A : Val(r, A[i]) = x})
KeepEv(r, k, i) ==
  LET c == r.w[k]
      e == c.ev[i]
      P == {j \in DOMAIN c.ev : c.ev[j].a = r.val}
      p == IF r.first THEN SetMin(P) ELSE SetMax(P)
  IN CASE r.f = "values" -> (Val(r, e) \in Range(r.vals) /\ ~ Missing(r.field, Val(r, e))) = r.pos
       [] r.f = "numeric" -> e.v # NoV /\ (e.v >= r.lo /\ e.v <= r.hi) = r.pos
       [] r.f = "time" -> e.t >= r.lo /\ e.t <= r.hi
       [] r.f = "relative" -> /\ ~ Missing(r.field, Val(r, e))
                              /\ IF r.level = "cases" THEN InCases(r, Val(r, e)) * r.den >= r.num * Len(r.w)
                                 ELSE InEvents(r, Val(r, e)) * r.den >= r.num * Len(All(r))
       [] r.f = "occurring" -> InEvents(r, e.a) >= r.x
       [] r.f = "prefix" -> P # {} /\ (IF r.strict THEN i < p ELSE i <= p)
       [] r.f = "suffix" -> P # {} /\ (IF r.strict THEN i > p ELSE i >= p)
       \* consecutive events with the same activity / the same timestamp: one per group
       [] r.f = "same_act" -> IF r.first THEN i = 1 \/ c.ev[i - 1].a # e.a ELSE i = Len(c.ev) \/ c.ev[i + 1].a # e.a
       [] r.f = "same_time" -> IF r.first THEN i = 1 \/ c.ev[i - 1].t # e.t ELSE i = Len(c.ev) \/ c.ev[i + 1].t # e.t
Rest(r, k) == LET c == r.w[k]
                  J == SortedSeq({i \in DOMAIN c.ev : KeepEv(r, k, i)})
              IN  [j \in DOMAIN J |-> c.ev[J[j]]]
\* empty cases of the result are ignored
Out(r) == {[id |-> c.id, ca |-> c.ca, ev |-> c.ev] : c \in {d \in Range(r.out) : d.ev # <<>>}}
Exp(r) == {[id |-> r.w[k].id, ca |-> r.w[k].ca, ev |-> Rest(r, k)] : k \in {j \in DOMAIN r.w : Rest(r, j) # <<>>}}
Once(r) == NoDup([i \in DOMAIN r.out |-> <<r.out[i].id, r.out[i].n>>])
\* cutting into sub-cases: the result lists, per original case, its parts in order
PartsOf(r, k) == LET c == r.w[k]
                     S == Range(r.vals)
                 IN  IF r.f = "between" THEN Between(c, S, Range(r.vals2), r.vals = r.vals2, 1, 0) ELSE Split(c, S, r.mode, 1, <<>>)
OutParts(r, k) == LET I == {i \in DOMAIN r.out : r.out[i].id = r.w[k].id}
                      N == SortedSeq({r.out[i].n : i \in I})
                  IN  [j \in DOMAIN N |-> r.out[CHOOSE i \in I : r.out[i].n = N[j]].ev]
Check(r) ==
  CASE r.op = "events" ->
         [exactly_the_matching |-> Out(r) = Exp(r),
          cases_once |-> Once(r)]
    [] r.op = "maxact" ->
         \* at most x activities stay, the most frequent ones, with all their events
         LET K == {e.a : e \in UNION {Range(c.ev) : c \in Range(r.out)}}
             A == {e.a : e \in Range(All(r))}
         IN  [number_of_activities |-> Cardinality(K) = Min2(r.x, Cardinality(A)),
              most_frequent |-> \A a \in K : \A b \in A \ K : InEvents(r, a) >= InEvents(r, b),
              all_their_events |-> Out(r) = {[id |-> c.id, ca |-> c.ca, ev |-> FilterSeq(c.ev, LAMBDA e : e.a \in K)] : c \in {d \in Range(r.w) : \E i \in DOMAIN d.ev : d.ev[i].a \in K}},
              cases_once |-> Once(r)]
    [] r.op = "parts" ->
         [sub_cases |-> \A k \in DOMAIN r.w : OutParts(r, k) = PartsOf(r, k),
          cases_once |-> Once(r) /\ {r.out[i].id : i \in DOMAIN r.out} \subseteq {c.id : c \in Range(r.w)},
          case_attributes |-> \A i \in DOMAIN r.out : \E c \in Range(r.w) : c.id = r.out[i].id /\ c.ca = r.out[i].ca]
    [] r.op = "concat" ->
         \* one event per timestamp of a case, named by the sorted activities
         [groups |-> \A k \in DOMAIN r.w : LET c == r.w[k]
                                               T == SortedSeq({e.t : e \in Range(c.ev)})
                                               o == CHOOSE i \in DOMAIN r.out : r.out[i].id = c.id
                                           IN  /\ (\E i \in DOMAIN r.out : r.out[i].id = c.id)
                                               /\ Len(r.out[o].ev) = Len(T)
                                               /\ \A j \in DOMAIN T : r.out[o].ev[j].t = T[j] /\ SameBag(r.names[o][j], [m \in DOMAIN FilterSeq(c.ev, LAMBDA e : e.t = T[j]) |-> FilterSeq(c.ev, LAMBDA e : e.t = T[j])[m].a]),
          cases_once |-> Once(r) /\ Len(r.out) = Len(r.w)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
