---- MODULE TrC16 ----
EXTENDS Times
VARIABLE l
\* r.w : words of the cases in order; r.ids : their identifiers
Vars(r) == Range(r.w)
CasesOf(r, v) == {c \in DOMAIN r.w : r.w[c] = v}
N(r, v) == Cardinality(CasesOf(r, v))
Pos(r, c, a) == {i \in DOMAIN r.w[c] : r.w[c][i] = a}
\* pairs of consecutive occurrences of a in case c
Cons(r, a) == {x \in UNION {{<<c, i, j>> : i \in Pos(r, c, a), j \in Pos(r, c, a)} : c \in DOMAIN r.w} :
                 x[2] < x[3] /\ ~ \E k \in (x[2] + 1)..(x[3] - 1) : r.w[x[1]][k] = a}
Repeats(r) == {a \in Acts(r.w) : Cons(r, a) # {}}
Msd(r, a) == SetMin({x[3] - x[2] - 1 : x \in Cons(r, a)})
Wit(r, a) == UNION {{r.w[x[1]][k] : k \in (x[2] + 1)..(x[3] - 1)} : x \in {y \in Cons(r, a) : y[3] - y[2] - 1 = Msd(r, a)}}
\* values: r.vals : per case, per event, the value as a sequence of length 0 or 1
HasVal(r) == {p \in Where(r.vals) : Len(r.vals[p[1]][p[2]]) = 1}
Val(r, p) == r.vals[p[1]][p[2]][1]
Check(r) ==
  CASE r.op = "variants" ->
         [variant_keys |-> NoDup([i \in DOMAIN r.rep |-> r.rep[i][1]]) /\ {r.rep[i][1] : i \in DOMAIN r.rep} = Vars(r),
          variant_counts |-> \A i \in DOMAIN r.rep : r.rep[i][2] = N(r, r.rep[i][1]),
          cases_partitioned |-> \A i \in DOMAIN r.rep : Len(r.rep[i]) > 2 => NoDup(r.rep[i][3]) /\ Range(r.rep[i][3]) = {r.ids[c] : c \in CasesOf(r, r.rep[i][1])},
          rows_kept |-> \A i \in DOMAIN r.rep : Len(r.rep[i]) > 3 => r.rep[i][4] = Len(r.rep[i][1]) * N(r, r.rep[i][1])]
    [] r.op = "vdf" ->
         [events_of_a_case |-> \A c \in DOMAIN r.w : r.ids[c] = r.one => r.events = [i \in DOMAIN r.w[c] |-> <<r.w[c][i], r.t[c][i]>>],
          variant_of_each_case |-> r.rep # <<>> => Exact(r.rep, {<<r.ids[c], r.w[c]>> : c \in DOMAIN r.w}),
          variant_list |-> r.rep # <<>> => Exact(r.lst, {<<v, N(r, v)>> : v \in Vars(r)}) /\ \A i \in 1..(Len(r.lst) - 1) : r.lst[i][2] >= r.lst[i + 1][2],
          variant_and_duration_of_each_case |-> r.rep # <<>> => Exact(r.dur, {<<r.ids[c], r.w[c], r.t[c][Len(r.t[c])] - r.t[c][1]>> : c \in DOMAIN r.w})]
    [] r.op = "sorted" ->
         [variants_listed |-> Len(r.rep) = (IF r.max = 0 THEN Cardinality(Vars(r)) ELSE Min2(r.max, Cardinality(Vars(r)))) /\ NoDup([i \in DOMAIN r.rep |-> r.rep[i][1]])
                              /\ \A i \in DOMAIN r.rep : r.rep[i][1] \in Vars(r) /\ r.rep[i][2] = N(r, r.rep[i][1]),
          by_frequency |-> /\ \A i \in 1..(Len(r.rep) - 1) : r.rep[i][2] >= r.rep[i + 1][2]
                           /\ Len(r.rep) > 0 => \A v \in Vars(r) : (\E i \in DOMAIN r.rep : r.rep[i][1] = v) \/ N(r, v) <= r.rep[Len(r.rep)][2]]
    [] r.op = "lang" -> [stochastic_language |-> {x[1] : x \in Range(r.rep)} = Vars(r) /\ NoDup(r.rep) /\ \A i \in DOMAIN r.rep : RatEq(r.rep[i][2], <<N(r, r.rep[i][1]), Len(r.w)>>)]
    [] r.op = "vardur" -> [durations_per_variant |-> NoDup([i \in DOMAIN r.rep |-> r.rep[i][1]]) /\ {r.rep[i][1] : i \in DOMAIN r.rep} = Vars(r) /\ \A i \in DOMAIN r.rep :
                             LET z == SortedSeq(CasesOf(r, r.rep[i][1])) IN r.rep[i][2] = [j \in DOMAIN z |-> r.dur[z[j]]]]
    [] r.op = "values" ->
         LET V == {Val(r, p) : p \in HasVal(r)}
         IN  [attribute_values |-> Exact(r.rep, {<<v, IF r.once THEN Cardinality({p[1] : p \in {q \in HasVal(r) : Val(r, q) = v}}) ELSE Cardinality({p \in HasVal(r) : Val(r, p) = v})>> : v \in V})]
    [] r.op = "cvalues" -> [case_attribute_values |-> Exact(r.rep, {<<v, Count(r.ca, v)>> : v \in Range(r.ca)})]
    [] r.op = "attrs" -> [attributes |-> NoDup(r.rep) /\ Range(r.rep) = Range(r.exp)]
    [] r.op = "rework" -> [rework_per_activity |-> Exact(r.rep, {<<a, Cardinality({x[1] : x \in Cons(r, a)})>> : a \in Repeats(r)})]
    [] r.op = "rework_cases" -> [rework_per_case |-> Exact(r.rep, {<<r.ids[c], Len(r.w[c]), Len(r.w[c]) - Cardinality(Range(r.w[c]))>> : c \in DOMAIN r.w})]
    [] r.op = "pos" -> [position_summary |-> Exact(r.rep, {<<i - 1, Cardinality({c \in DOMAIN r.w : i \in Pos(r, c, r.a)})>> : i \in UNION {Pos(r, c, r.a) : c \in DOMAIN r.w}})]
    [] r.op = "msd" -> [self_distance |-> Exact(r.rep, {<<a, Msd(r, a)>> : a \in Repeats(r)}),
                        witnesses |-> ~ Has(r, "wit") \/ ({<<r.wit[i][1], Range(r.wit[i][2])>> : i \in DOMAIN r.wit} = {<<a, Wit(r, a)>> : a \in {b \in Repeats(r) : Msd(r, b) > 0}} /\ NoDup([i \in DOMAIN r.wit |-> r.wit[i][1]]))]
    [] r.op = "distr" ->
         LET o == 8 * 3600
             D(t) == (t + o) \div 86400
             K(t) == CASE r.kind = "hours" -> ((t + o) % 86400) \div 3600
                       [] r.kind = "days_week" -> D(t) % 7
                       [] r.kind = "weeks" -> 9 + (D(t) \div 7)
                       [] r.kind = "days_month" -> D(t) + 1
                       [] r.kind = "months" -> 3
                       [] r.kind = "years" -> 2021
             All == CASE r.kind = "hours" -> 0..23 [] r.kind = "days_week" -> 0..6 [] r.kind = "weeks" -> 0..52 [] r.kind = "days_month" -> 1..31 [] r.kind = "months" -> 1..12 [] r.kind = "years" -> {2021}
         IN  [distribution |-> Len(r.rep) = Cardinality(All) /\ (\A i \in DOMAIN r.rep : r.rep[i][1] \in All /\ r.rep[i][2] = Cardinality({j \in DOMAIN r.t : K(r.t[j]) = r.rep[i][1]}))
                              /\ \A i \in 1..(Len(r.rep) - 1) : r.rep[i][1] < r.rep[i + 1][1]]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
