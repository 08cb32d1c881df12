---- MODULE TrC15 ----
EXTENDS Times
VARIABLE l
\* r.ev : cases as sequences of events [a, s, t] (start and completion), in order
W(r) == [c \in DOMAIN r.ev |-> [i \in DOMAIN r.ev[c] |-> r.ev[c][i].a]]
First(c) == c[1].t
Lst(c) == c[Len(c)].t
CaseDur(r, c) == Elapsed(r.bh, First(r.ev[c]), Lst(r.ev[c]))
Dfp(r) == {p \in Where(r.ev) : p[2] < Len(r.ev[p[1]])}
PairOf(r, p) == <<r.ev[p[1]][p[2]].a, r.ev[p[1]][p[2] + 1].a>>
Wait(r, p) == Max2(0, Elapsed(r.bh, r.ev[p[1]][p[2]].t, r.ev[p[1]][p[2] + 1].s))
WaitsOf(r, S) == LET z == PosSeq(S, 0) IN [i \in DOMAIN z |-> Wait(r, z[i])]
Pairs(r) == {PairOf(r, p) : p \in Dfp(r)}
Waits(r, a, b) == WaitsOf(r, {p \in Dfp(r) : PairOf(r, p) = <<a, b>>})
\* rep: <<a, b, rational>>
AggOk(r, rep, V(_, _)) == NoDup([i \in DOMAIN rep |-> <<rep[i][1], rep[i][2]>>]) /\ {<<rep[i][1], rep[i][2]>> : i \in DOMAIN rep} = Pairs(r)
  /\ \A i \in DOMAIN rep : RatEq(rep[i][3], Agg(r.how, V(rep[i][1], rep[i][2])))
Meets(x, y) == Max2(x[1], y[1]) <= Min2(x[2], y[2])
Span(c) == <<SetMin({c[i].s : i \in DOMAIN c}), SetMax({c[i].t : i \in DOMAIN c})>>
PreOk(r, a, rep, avg) ==
  LET P == {q \in Pairs(r) : q[2] = a}
      All == WaitsOf(r, {p \in Dfp(r) : PairOf(r, p)[2] = a})
  IN  /\ {<<rep[i][1], rep[i][3]>> : i \in DOMAIN rep} = {<<q[1], Len(Waits(r, q[1], a))>> : q \in P} /\ Len(rep) = Cardinality(P)
      /\ \A i \in DOMAIN rep : RatEq(rep[i][2], Agg("mean", Waits(r, rep[i][1], a)))
      /\ RatEq(avg, IF All = <<>> THEN <<0, 1>> ELSE Agg("mean", All))
PostOk(r, a, rep, avg) ==
  LET P == {q \in Pairs(r) : q[1] = a}
      All == WaitsOf(r, {p \in Dfp(r) : PairOf(r, p)[1] = a})
  IN  /\ {<<rep[i][1], rep[i][3]>> : i \in DOMAIN rep} = {<<q[2], Len(Waits(r, a, q[2]))>> : q \in P} /\ Len(rep) = Cardinality(P)
      /\ \A i \in DOMAIN rep : RatEq(rep[i][2], Agg("mean", Waits(r, a, rep[i][1])))
      /\ RatEq(avg, IF All = <<>> THEN <<0, 1>> ELSE Agg("mean", All))
Conc(r) == {x \in UNION {{<<c, i, j>> : i \in DOMAIN r.ev[c], j \in DOMAIN r.ev[c]} : c \in DOMAIN r.ev} :
              x[2] < x[3] /\ LET e == r.ev[x[1]][x[2]]
                                 f == r.ev[x[1]][x[3]]
                                 lo == Max2(e.s, f.s)
                                 hi == Min2(e.t, f.t)
                             IN  IF r.strict THEN lo < hi ELSE lo <= hi}
Unordered(r, x) == {r.ev[x[1]][x[2]].a, r.ev[x[1]][x[3]].a}
\* performance spectrum: the events of the chosen activities, in order of time
Chosen(r, c) == FilterSeq(r.ev[c], LAMBDA e : e.a \in Range(r.L))
Windows(r, m) == UNION {{<<c, i>> : i \in 1..(Len(Chosen(r, c)) - m + 1)} : c \in DOMAIN r.ev}
Slice(s, i, m) == [j \in 1..m |-> s[i + j - 1]]
ActsOf(s) == [j \in DOMAIN s |-> s[j].a]
TimesOf(s) == [j \in DOMAIN s |-> s[j].t]
Occurrences(r) == {x \in Windows(r, Len(r.L)) : ActsOf(Slice(Chosen(r, x[1]), x[2], Len(r.L))) = r.L}
\* disconnected: maximal runs of events whose activities follow one another in the list
Next2(r, a, b) == \E k \in 1..(Len(r.L) - 1) : r.L[k] = a /\ r.L[k + 1] = b
Runs(r) == {x \in UNION {{<<c, i, j>> : i \in DOMAIN Chosen(r, c), j \in DOMAIN Chosen(r, c)} : c \in DOMAIN r.ev} :
              LET s == Chosen(r, x[1]) IN
              /\ x[2] < x[3] /\ \A k \in x[2]..(x[3] - 1) : Next2(r, s[k].a, s[k + 1].a)
              /\ (x[2] > 1 => ~ Next2(r, s[x[2] - 1].a, s[x[2]].a)) /\ (x[3] < Len(s) => ~ Next2(r, s[x[3]].a, s[x[3] + 1].a))}
BagOf(X, V(_)) == LET z == SetToSeqAny(X) IN [i \in DOMAIN z |-> V(z[i])]
SubBag(s, t) == \A i \in DOMAIN s : Count(s, s[i]) <= Count(t, s[i])
Sampled(r, s) == IF Len(s) > r.size THEN Len(r.pts) = r.size /\ SubBag(r.pts, s) ELSE SameBag(r.pts, s)
Check(r) ==
  CASE r.op = "dur" ->
         [all_durations |-> r.all = Sorted([c \in DOMAIN r.ev |-> CaseDur(r, c)]),
          case_duration |-> \A i \in DOMAIN r.by : r.by[i][2] = CaseDur(r, r.by[i][1]),
          start_end |-> \A i \in DOMAIN r.se : r.se[i][2] = First(r.ev[r.se[i][1]]) /\ r.se[i][3] = Lst(r.ev[r.se[i][1]])]
    [] r.op = "arr" ->
         LET S == {First(r.ev[c]) : c \in DOMAIN r.ev}
             E == {Lst(r.ev[c]) : c \in DOMAIN r.ev}
             n == Len(r.ev) - 1
         IN  [arrival_average |-> RatEq(r.arr, <<SetMax(S) - SetMin(S), n>>), dispersion_average |-> RatEq(r.disp, <<SetMax(E) - SetMin(E), n>>)]
    [] r.op = "cycle" -> [cycle_time |-> RatEq(r.val, <<Measure({<<r.ev[p[1]][p[2]].s, r.ev[p[1]][p[2]].t>> : p \in Where(r.ev)}), Len(r.ev)>>)]
    [] r.op = "since" ->   \* per activity: mean over its cases of the mean time since the first event of the case
         LET acts == UNION {{r.ev[c][i].a : i \in DOMAIN r.ev[c]} : c \in DOMAIN r.ev}
             With(a) == {c \in DOMAIN r.ev : \E i \in DOMAIN r.ev[c] : r.ev[c][i].a = a}
             At(a, c) == {i \in DOMAIN r.ev[c] : r.ev[c][i].a = a}
             CaseStart(c) == SetMin({r.ev[c][i].t : i \in DOMAIN r.ev[c]})
             S(a, c) == SumFun([i \in At(a, c) |-> r.ev[c][i].t - CaseStart(c)], At(a, c))
             B(a) == 2520   \* every number of occurrences up to 10 divides it
             Tot(a) == SumFun([c \in With(a) |-> S(a, c) * (2520 \div Cardinality(At(a, c)))], With(a))
             Exp(a) == Norm(<<Tot(a), 2520 * Cardinality(With(a))>>)
         IN  [activities |-> {r.val[i][1] : i \in DOMAIN r.val} = acts /\ Len(r.val) = Cardinality(acts),
              mean_time_since_the_start |-> \A i \in DOMAIN r.val : Norm(r.val[i][2]) = Exp(r.val[i][1]) /\ r.val[i][3]]
    [] r.op = "over" -> [case_overlap |-> Len(r.val) = Len(r.order) /\ \A i \in DOMAIN r.order : r.val[i] = Cardinality({c \in DOMAIN r.ev : Meets(Span(r.ev[r.order[i]]), Span(r.ev[c]))})]
    [] r.op = "iover" -> [interval_overlap |-> Len(r.val) = Len(r.order) /\ \A i \in DOMAIN r.order :
                            r.val[i] = Cardinality({p \in Where(r.ev) : LET e == r.ev[p[1]][p[2]]
                                                                             f == r.ev[r.order[i][1]][r.order[i][2]]
                                                                         IN  Meets(<<e.s, e.t>>, <<f.s, f.t>>)})]
    [] r.op = "serv" ->
         LET A == Acts(W(r))
             V(a) == LET z == PosSeq({p \in Where(r.ev) : r.ev[p[1]][p[2]].a = a}, 0) IN [i \in DOMAIN z |-> Elapsed(r.bh, r.ev[z[i][1]][z[i][2]].s, r.ev[z[i][1]][z[i][2]].t)]
         IN  [service_time |-> {r.val[i][1] : i \in DOMAIN r.val} = A /\ Len(r.val) = Cardinality(A) /\ \A i \in DOMAIN r.val : RatEq(r.val[i][2], Agg(r.how, V(r.val[i][1])))]
    [] r.op = "perf" -> [performance |-> AggOk(r, r.val, LAMBDA a, b : Waits(r, a, b))]
    [] r.op = "raw" -> [raw_values |-> {<<r.val[i][1], r.val[i][2]>> : i \in DOMAIN r.val} = Pairs(r) /\ Len(r.val) = Cardinality(Pairs(r))
                                       /\ \A i \in DOMAIN r.val : SameBag(r.val[i][3], Waits(r, r.val[i][1], r.val[i][2]))]
    [] r.op = "freq" -> [frequencies_with_performance |-> Exact(r.val, Dfg(W(r)))]
    [] r.op = "conc" -> [concurrent_activities |-> Len(r.val) = Cardinality({Unordered(r, x) : x \in Conc(r)})
                           /\ \A u \in {Unordered(r, x) : x \in Conc(r)} : \E i \in DOMAIN r.val :
                                {r.val[i][1], r.val[i][2]} = u /\ r.val[i][3] = Cardinality({x \in Conc(r) : Unordered(r, x) = u})]
    [] r.op = "pass" -> [time_from_predecessors |-> ~ Has(r, "pre") \/ PreOk(r, r.a, r.pre, r.preavg),
                         time_to_successors |-> ~ Has(r, "post") \/ PostOk(r, r.a, r.post, r.postavg)]
    [] r.op = "paths" ->
         LET w == W(r)
             Vs == {x \in Range(w) : Len(x) > 1}
             X == UNION {{<<v, i>> : i \in 1..(Len(v) - 1)} : v \in Vs}
             Occ(v, i) == LET z == PosSeq({<<c, i>> : c \in {c \in DOMAIN w : w[c] = v}}, 0) IN [j \in DOMAIN z |-> Wait(r, z[j])]
         IN  [paths_listed |-> Len(r.val) = Cardinality(X) /\ {<<r.val[j].v, r.val[j].i>> : j \in DOMAIN r.val} = X,
              paths_content |-> \A j \in DOMAIN r.val : LET x == r.val[j] IN
                  <<x.v, x.i>> \in X => /\ x.a = x.v[x.i] /\ x.b = x.v[x.i + 1] /\ x.n = Cardinality({c \in DOMAIN w : w[c] = x.v})
                                        /\ x.cum = Cardinality({k \in 1..(x.i - 1) : x.v[k] = x.a /\ x.v[k + 1] = x.b})
                                        /\ RatEq(x.d, Agg(r.how, Occ(x.v, x.i))),
              paths_order |-> \A j \in 1..(Len(r.val) - 1) : r.val[j].n > r.val[j + 1].n \/ (r.val[j].n = r.val[j + 1].n /\ (r.val[j].v # r.val[j + 1].v \/ r.val[j].i < r.val[j + 1].i))]
    [] r.op = "spec" -> [spectrum |-> Sampled(r, BagOf(Occurrences(r), LAMBDA x : TimesOf(Slice(Chosen(r, x[1]), x[2], Len(r.L))))),
                         spectrum_order |-> \A i \in 1..(Len(r.pts) - 1) : r.pts[i][1] <= r.pts[i + 1][1]]
    [] r.op = "specd" ->
         LET V(x) == <<x[1], [j \in 1..(x[3] - x[2] + 1) |-> LET e == Chosen(r, x[1])[x[2] + j - 1] IN <<e.a, e.t>>]>>
         IN  [disconnected_spectrum |-> Sampled(r, BagOf(Runs(r), V)),
              spectrum_order |-> \A i \in 1..(Len(r.pts) - 1) : r.pts[i][2][1][2] <= r.pts[i + 1][2][1][2]]
    [] r.op = "cost" ->
         LET V(a, b) == LET z == PosSeq({p \in Dfp(r) : PairOf(r, p) = <<a, b>>}, 0) IN [i \in DOMAIN z |-> r.ev[z[i][1]][z[i][2] + 1].v]
         IN  [cost |-> AggOk(r, r.val, V)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
