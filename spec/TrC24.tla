---- MODULE TrC24 ----
\* Views of an object-centric log: flattening, directly-follows graph, object graphs, summaries, nets per object type.
EXTENDS Ocel, Logs, Nets
VARIABLE l
Types(L) == {L.ob[i].ty : i \in DOMAIN L.ob}
RelTypes(L) == {L.rel[i].ty : i \in DOMAIN L.rel}
RelOfTy(L, ot) == FilterSeq(L.rel, LAMBDA x : x.ty = ot)
Act(L, e) == EvOf(L, e).a
ObjsWithEv(L) == FilterSeq(L.ob, LAMBDA o : o.id \in RelOb(L))

\* ---------------------------------------------------------------- flattening
FlatRow(L, x) == [c |-> x.o, e |-> x.e, a |-> x.a, t |-> x.t, ea |-> EvOf(L, x.e).at, ca |-> ObOf(L, x.o).at]
FlatCase(rows, c) == FilterSeq(rows, LAMBDA x : x.c = c)
Flat(r) ==
  LET L == r.w
      R == RelOfTy(L, r.ot)
  IN  [one_row_per_related_event |-> SameBag(r.out, [i \in DOMAIN R |-> FlatRow(L, R[i])]),
       events_of_a_case_in_order |-> \A o \in {R[i].o : i \in DOMAIN R} : LET F == FlatCase(r.out, o) IN [i \in DOMAIN F |-> F[i].e] = Life(L, o),
       rows_in_time_order |-> \A i \in 1..(Len(r.out) - 1) : r.out[i].t <= r.out[i + 1].t]

\* ---------------------------------------------------------------- OC-DFG
\* occurrences: <<type, source event, target event, object>> for consecutive events of an object
Occ(L) == UNION {LET f == Life(L, o.id) IN {<<o.ty, f[i], f[i + 1], o.id>> : i \in 1..(Len(f) - 1)} : o \in Range(ObjsWithEv(L))}
Keys2(L, S) == {<<x[1], Act(L, x[2]), Act(L, x[3])>> : x \in S}
EdgeTab(L, F(_)) ==
  {<<k[1], k[2], k[3], {F(x) : x \in {y \in Occ(L) : y[1] = k[1] /\ Act(L, y[2]) = k[2] /\ Act(L, y[3]) = k[3]}}>> : k \in Keys2(L, Occ(L))}
Incid(L) == {<<L.rel[i].ty, L.rel[i].a, L.rel[i].e, L.rel[i].o>> : i \in DOMAIN L.rel}
StartInc(L) == {<<o.ty, Act(L, Life(L, o.id)[1]), Life(L, o.id)[1], o.id>> : o \in Range(ObjsWithEv(L))}
EndInc(L) == {LET f == Life(L, o.id) IN <<o.ty, Act(L, f[Len(f)]), f[Len(f)], o.id>> : o \in Range(ObjsWithEv(L))}
ActTab(S, F(_)) == {<<k[1], k[2], {F(x) : x \in {y \in S : y[1] = k[1] /\ y[2] = k[2]}}>> : k \in {<<x[1], x[2]>> : x \in S}}
IndepTab(S, F(_)) == {<<k, {F(x) : x \in {y \in S : y[2] = k}}>> : k \in {x[2] : x \in S}}
EvOnly(x) == x[3]
ObOnly(x) == x[4]
Both(x) == <<x[3], x[4]>>
Couple(x) == <<x[2], x[3]>>
Triple(x) == <<x[2], x[3], x[4]>>
\* reported tables: sequences of <<keys.., values>> with the values a duplicate-free sequence
Tab(rep, n) == {[i \in 1..(n + 1) |-> IF i = n + 1 THEN Range(rep[k][i]) ELSE rep[k][i]] : k \in DOMAIN rep}
TabOk(rep, n, exp) == /\ Tab(rep, n) = exp
                      /\ Len(rep) = Cardinality(exp)
                      /\ \A k \in DOMAIN rep : NoDup(rep[k][n + 1])
PerfTab(L, F(_)) == {<<k[1], k[2], k[3], ({<<F(x), EvOf(L, x[3]).t - EvOf(L, x[2]).t>> : x \in {y \in Occ(L) : y[1] = k[1] /\ Act(L, y[2]) = k[2] /\ Act(L, y[3]) = k[3]}})>> : k \in Keys2(L, Occ(L))}
\* the durations are reported in increasing order, one per occurrence
PerfOk(rep, exp) ==
  /\ Len(rep) = Cardinality(exp)
  /\ \A k \in DOMAIN rep : \E x \in exp : /\ x[1] = rep[k][1] /\ x[2] = rep[k][2] /\ x[3] = rep[k][3]
                                         /\ LET D == SetToSeqAny(x[4]) IN SameBag(rep[k][4], [i \in DOMAIN D |-> D[i][2]])
                                         /\ \A i \in 1..(Len(rep[k][4]) - 1) : rep[k][4][i] <= rep[k][4][i + 1]
Ocdfg(r) ==
  LET L == r.w IN
  [activities |-> Exact(r.activities, {L.ev[i].a : i \in DOMAIN L.ev}),
   object_types |-> Exact(r.types, Types(L)),
   edges_total_objects |-> TabOk(r.e_to, 3, EdgeTab(L, Triple)),
   edges_unique_objects |-> TabOk(r.e_uo, 3, EdgeTab(L, ObOnly)),
   edges_event_couples |-> TabOk(r.e_ec, 3, EdgeTab(L, LAMBDA x : <<x[2], x[3]>>)),
   activities_total_objects |-> TabOk(r.ai_to, 1, IndepTab(Incid(L), Both)),
   activities_unique_objects |-> TabOk(r.ai_uo, 1, IndepTab(Incid(L), ObOnly)),
   activities_events |-> TabOk(r.ai_ev, 1, IndepTab(Incid(L), EvOnly)),
   type_activities |-> TabOk(r.at_to, 2, ActTab(Incid(L), Both)) /\ TabOk(r.at_uo, 2, ActTab(Incid(L), ObOnly)) /\ TabOk(r.at_ev, 2, ActTab(Incid(L), EvOnly)),
   start_activities |-> TabOk(r.s_to, 2, ActTab(StartInc(L), Both)) /\ TabOk(r.s_uo, 2, ActTab(StartInc(L), ObOnly)) /\ TabOk(r.s_ev, 2, ActTab(StartInc(L), EvOnly)),
   end_activities |-> TabOk(r.f_to, 2, ActTab(EndInc(L), Both)) /\ TabOk(r.f_uo, 2, ActTab(EndInc(L), ObOnly)) /\ TabOk(r.f_ev, 2, ActTab(EndInc(L), EvOnly)),
   performance_total_objects |-> PerfOk(r.p_to, PerfTab(L, Triple)),
   performance_event_couples |-> PerfOk(r.p_ec, PerfTab(L, Couple))]

\* ---------------------------------------------------------------- object graphs
FirstEv(L, o) == Life(L, o)[1]
LastEv(L, o) == Life(L, o)[Len(Life(L, o))]
Pairs(L) == (RelOb(L) \X RelOb(L)) \ {<<o, o>> : o \in RelOb(L)}
Share(L) == {p \in Pairs(L) : EvsOf(L, p[1]) \cap EvsOf(L, p[2]) # {}}
Descend(L) == {p \in Share(L) : LET e == FirstEv(L, p[2]) IN e \in EvsOf(L, p[1]) /\ FirstEv(L, p[1]) # e}
Inherit0(L) == {p \in Share(L) : LastEv(L, p[1]) = FirstEv(L, p[2])}
Inherit(L) == {p \in Inherit0(L) : <<p[2], p[1]>> \notin Inherit0(L)}
Cobirth(L) == {p \in Share(L) : FirstEv(L, p[1]) = FirstEv(L, p[2])}
Codeath(L) == {p \in Share(L) : LastEv(L, p[1]) = LastEv(L, p[2])}
Directed(g) == g \in {"object_descendants", "object_inheritance"}
Expect(L, g) == CASE g = "object_interaction" -> Share(L) [] g = "object_descendants" -> Descend(L) [] g = "object_inheritance" -> Inherit(L)
                  [] g = "object_cobirth" -> Cobirth(L) [] g = "object_codeath" -> Codeath(L)
Graph(r) ==
  LET X == Expect(r.w, r.g)
      S == Range(r.out)
  IN  IF Directed(r.g) THEN [exact_graph |-> NoDup(r.out) /\ S = X]
      ELSE [exact_graph |-> S \subseteq X /\ \A p \in X : p \in S \/ <<p[2], p[1]>> \in S,
            each_pair_once |-> NoDup(r.out) /\ \A p \in S : <<p[2], p[1]>> \notin S]
\* the object-object relations added by the enrichment: interactions both ways, the others as in the graph
Enrich(r) ==
  LET New == {<<x.o, x.p>> : x \in {y \in Range(r.out) : y.q = r.g \o "_graph"}}
      X == Expect(r.w, r.g)
  IN  [links_of_the_graph |-> IF Directed(r.g) \/ r.g = "object_interaction" THEN New = X
                              ELSE New \subseteq X /\ \A p \in X : p \in New \/ <<p[2], p[1]>> \in New,
       previous_links_kept |-> \A i \in DOMAIN r.w.o2o : r.w.o2o[i] \in Range(r.out),
       nothing_else |-> \A i \in DOMAIN r.out : r.out[i] \in Range(r.w.o2o) \/ r.out[i].q = r.g \o "_graph"]

\* ---------------------------------------------------------------- summaries
Med2(s) == LET B == SortSeq(s, <) n == Len(s) IN IF n % 2 = 1 THEN 2 * B[n \div 2 + 1] ELSE B[n \div 2] + B[n \div 2 + 1]
StatOk(x, s) == x.min = SetMin(Range(s)) /\ x.max = SetMax(Range(s)) /\ RatEq(x.mean, <<SumSeq(s), Len(s)>>) /\ RatEq(x.median, <<Med2(s), 2>>)
CountsEv(L, a, ot) == LET O == SetToSeqAny({x.o : x \in {y \in Range(L.rel) : y.a = a /\ y.ty = ot}}) IN [i \in DOMAIN O |-> Cardinality({k \in DOMAIN L.rel : L.rel[k].o = O[i] /\ L.rel[k].a = a})]
CountsOb(L, a, ot) == LET E == SetToSeqAny({x.e : x \in {y \in Range(L.rel) : y.a = a /\ y.ty = ot}}) IN [i \in DOMAIN E |-> Cardinality({k \in DOMAIN L.rel : L.rel[k].e = E[i] /\ L.rel[k].ty = ot})]
ActTypes(L) == {<<L.rel[i].a, L.rel[i].ty>> : i \in DOMAIN L.rel}
StatTab(rep, L, F(_, _, _)) ==
  /\ {<<x.a, x.ot>> : x \in Range(rep)} = ActTypes(L) /\ Len(rep) = Cardinality(ActTypes(L))
  /\ \A i \in DOMAIN rep : StatOk(rep[i], F(L, rep[i].a, rep[i].ot))
Summary(r) ==
  LET L == r.w
      T == {L.rel[i].t : i \in DOMAIN L.rel}
      RT(t) == FilterSeq(L.rel, LAMBDA x : x.t = t)
  IN
  [object_types |-> Exact(r.types, Types(L)),
   attribute_names |-> Exact(r.attrs, {L.ev[p[1]].at[p[2]][1] : p \in UNION {{<<i, j>> : j \in DOMAIN L.ev[i].at} : i \in DOMAIN L.ev}} \cup {L.ob[p[1]].at[p[2]][1] : p \in UNION {{<<i, j>> : j \in DOMAIN L.ob[i].at} : i \in DOMAIN L.ob}}),
   type_activities |-> TabOk(r.ota, 1, {<<ot, {x.a : x \in {y \in Range(L.rel) : y.ty = ot}}>> : ot \in RelTypes(L)}),
   objects_per_event |-> Exact(r.otc, {<<x.e, x.ty, Cardinality({k \in DOMAIN L.rel : L.rel[k].e = x.e /\ L.rel[k].ty = x.ty})>> : x \in Range(L.rel)}),
   events_per_type |-> Exact(r.ept, {<<ot, Cardinality({x.e : x \in {y \in Range(L.rel) : y.ty = ot}})>> : ot \in Types(L)}),
   events_per_object |-> StatTab(r.eta, L, CountsEv),
   objects_per_activity |-> StatTab(r.ota2, L, CountsOb),
   divergence |-> Exact(r.div, {p \in ActTypes(L) : Med2(CountsEv(L, p[1], p[2])) > 2}),
   convergence |-> Exact(r.conv, {p \in ActTypes(L) : Med2(CountsOb(L, p[1], p[2])) > 2}),
   temporal |-> [i \in DOMAIN r.temp |-> r.temp[i].t] = SortedSeq(T) /\ \A i \in DOMAIN r.temp : LET R == RT(r.temp[i].t) IN r.temp[i].a = [k \in DOMAIN R |-> R[k].a] /\ r.temp[i].o = [k \in DOMAIN R |-> R[k].o],
   objects |-> /\ Exact([i \in DOMAIN r.objs |-> r.objs[i].o], RelOb(L))
               /\ \A i \in DOMAIN r.objs : LET x == r.objs[i]
                                               f == Life(L, x.o)
                                               TS == {EvOf(L, e).t : e \in Range(f)}
                                           IN  x.a = [k \in DOMAIN f |-> Act(L, f[k])] /\ x.s = SetMin(TS) /\ x.f = SetMax(TS) /\ x.d = x.f - x.s /\ Range(x.i) = Together(L, x.o) \ {x.o} /\ NoDup(x.i),
   interactions |-> Exact(r.inter, {<<e, Act(L, e), o, ObOf(L, o).ty, p, ObOf(L, p).ty>> : <<e, o, p>> \in {z \in RelEv(L) \X RelOb(L) \X RelOb(L) : z[2] # z[3] /\ z[2] \in ObjsOf(L, z[1]) /\ z[3] \in ObjsOf(L, z[1])}}),
   related_events |-> Len(r.rele) = Cardinality(RelOb(L)) /\ \A i \in DOMAIN r.rele : r.rele[i].f = Life(L, r.rele[i].o) /\ r.rele[i].ty = ObOf(L, r.rele[i].o).ty,
   related_objects |-> Len(r.relo) = Len(L.ev) /\ \A i \in DOMAIN r.relo : LET R == FilterSeq(L.rel, LAMBDA x : x.e = r.relo[i].e) IN r.relo[i].o = [k \in DOMAIN R |-> R[k].o],
   extended_table |-> Len(r.ext) = Len(L.ev) /\ \A i \in DOMAIN r.ext :
        /\ r.ext[i].e = L.ev[i].id /\ r.ext[i].a = L.ev[i].a /\ r.ext[i].t = L.ev[i].t
        /\ Exact([k \in DOMAIN r.ext[i].ot |-> r.ext[i].ot[k][1]], {x.ty : x \in {y \in Range(L.rel) : y.e = r.ext[i].e}})
        /\ \A k \in DOMAIN r.ext[i].ot : LET R == FilterSeq(L.rel, LAMBDA x : x.e = r.ext[i].e /\ x.ty = r.ext[i].ot[k][1]) IN r.ext[i].ot[k][2] = [q \in DOMAIN R |-> R[q].o],
   prefixes |-> Exact(r.pre, UNION {LET f == Life(L, o) IN {<<f[i], o, SubSeq(f, 1, i - 1)>> : i \in 2..Len(f)} : o \in RelOb(L)}),
   suffixes |-> Exact(r.suf, UNION {LET f == Life(L, o) IN {<<f[i], o, SubSeq(f, i + 1, Len(f))>> : i \in 1..(Len(f) - 1)} : o \in RelOb(L)})]

\* ---------------------------------------------------------------- one net per object type
Words(L, ot) == {LET f == Life(L, o.id) IN [i \in DOMAIN f |-> Act(L, f[i])] : o \in {x \in Range(ObjsWithEv(L)) : x.ty = ot}}
Single(L, a, ot) == {e \in RelEv(L) : Act(L, e) = a /\ Cardinality({k \in DOMAIN L.rel : L.rel[k].e = e /\ L.rel[k].ty = ot}) = 1}
Rel1(L, a, ot) == {e \in RelEv(L) : Act(L, e) = a /\ \E k \in DOMAIN L.rel : L.rel[k].e = e /\ L.rel[k].ty = ot}
Ocpn(r) ==
  LET L == r.w IN
  [one_net_per_type |-> Exact([i \in DOMAIN r.nets |-> r.nets[i].ot], Types(L)),
   nets_replay_the_flattened_log |-> r.fit => \A i \in DOMAIN r.nets : \A w \in Words(L, r.nets[i].ot) : Accepts(r.nets[i].net, w),
   nets_have_the_activities_of_the_type |-> \A i \in DOMAIN r.nets : Labels(r.nets[i].net) = UNION {Range(w) : w \in Words(L, r.nets[i].ot)},
   variable_arcs |-> Exact(r.dbl, {<<p[2], p[1], 5 * Cardinality(Single(L, p[1], p[2])) <= 4 * Cardinality(Rel1(L, p[1], p[2]))>> : p \in ActTypes(L)})]
Check(r) ==
  CASE r.op = "flat" -> Flat(r)
    [] r.op = "ocdfg" -> Ocdfg(r)
    [] r.op = "graph" -> Graph(r)
    [] r.op = "enrich" -> Enrich(r)
    [] r.op = "summary" -> Summary(r)
    [] r.op = "ocpn" -> Ocpn(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
