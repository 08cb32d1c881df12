---- MODULE TrC45 ----
\* C45: the heuristics miner returns the dependency graph of its definition, and the Petri net with the behaviour of that graph
EXTENDS Heur
VARIABLE l
W(r) == [c \in DOMAIN r.ev |-> [i \in DOMAIN r.ev[c] |-> r.ev[c][i].a]]
Conc(r) == {x \in UNION {{<<c, i, j>> : i \in DOMAIN r.ev[c], j \in DOMAIN r.ev[c]} : c \in DOMAIN r.ev} :
              x[2] < x[3] /\ Max2(r.ev[x[1]][x[2]].s, r.ev[x[1]][x[3]].s) <= Min2(r.ev[x[1]][x[2]].t, r.ev[x[1]][x[3]].t)}
ConcCount(r) ==
  LET X == Conc(r)
      u(x) == LET a == r.ev[x[1]][x[2]].a
                  b == r.ev[x[1]][x[3]].a
              IN  <<Min2(a, b), Max2(a, b)>>
  IN  {<<p[1], p[2], Cardinality({x \in X : u(x) = p})>> : p \in {u(x) : x \in X}}
Facts(r) ==
  LET w == W(r)
  IN  IF r.how = "plus" THEN [D |-> Efg(r.ev, TRUE), A |-> ActCount(w), T |-> {}, sa |-> Starts(w), ea |-> Ends(w), conc |-> ConcCount(r)]
      ELSE IF r.how = "dfg" THEN [D |-> Range(r.dfg), A |-> Range(r.occ), T |-> {}, sa |-> Range(r.sa), ea |-> Range(r.ea)]
      ELSE [D |-> Dfg(w), A |-> ActCount(w), T |-> Triples(w), sa |-> Starts(w), ea |-> Ends(w)]
Net(r) == IF r.how = "plus" THEN PlusPlus(Facts(r), r.p) ELSE Classic(Facts(r), r.p)
\* average time between directly following events
Perf(r, a, b) ==
  LET S == UNION {{<<c, i>> : i \in {j \in 1..(Len(r.ev[c]) - 1) : r.ev[c][j].a = a /\ r.ev[c][j + 1].a = b}} : c \in DOMAIN r.ev}
      v == [x \in S |-> Max2(0, r.ev[x[1]][x[2] + 1].s - r.ev[x[1]][x[2]].t)]
  IN  IF S = {} THEN <<0, 1>> ELSE Norm(<<SumFun(v, S), Cardinality(S)>>)
Shown(r, H, x) == IF r.perf THEN (IF In2(H.D, x[1], x[2]) THEN Perf(r, x[1], x[2]) ELSE <<0, 1>>) ELSE <<N(H.D, x[1], x[2]), 1>>
Same(A, B) ==
  LET small == Bounded(A, 250) /\ Bounded(B, 700)
  IN  IF small THEN SameLanguage(NetModel(A), NetModel(B), 250) ELSE Words(NetModel(A), 3) = Words(NetModel(B), 3)
Check(r) ==
  LET H == Net(r)
      E == H.C \cup H.L
      d(x) == IF x \in H.C THEN (CHOOSE y \in H.dep : y[1] = x[1] /\ y[2] = x[2])[3] ELSE <<0, 1>>
      name(a) == r.names[a]
  IN CASE r.op = "heu" ->
       [activities |-> Exact(r.nodes, {<<a, Occ(Facts(r).A, a)>> : a \in H.V}),
        dependency_values |-> Exact([i \in DOMAIN r.dep |-> <<r.dep[i][1], r.dep[i][2], Norm(r.dep[i][3])>>], H.dep),
        outgoing_connections |-> Exact([i \in DOMAIN r.out |-> <<r.out[i][1], r.out[i][2], Norm(r.out[i][3]), r.out[i][4]>>], {<<x[1], x[2], d(x), N(H.D, x[1], x[2])>> : x \in E}),
        ingoing_connections |-> Exact([i \in DOMAIN r.inc |-> <<r.inc[i][1], r.inc[i][2], Norm(r.inc[i][3])>>], {<<x[1], x[2], d(x)>> : x \in E}),
        shown_values |-> Exact([i \in DOMAIN r.rep |-> <<r.rep[i][1], r.rep[i][2], Norm(r.rep[i][3])>>], {<<x[1], x[2], Norm(Shown(r, H, x))>> : x \in E}),
        concurrent_successors |-> Exact([i \in DOMAIN r.ao |-> <<r.ao[i][1], r.ao[i][2], r.ao[i][3], Norm(r.ao[i][4])>>], H.andout),
        concurrent_predecessors |-> Exact([i \in DOMAIN r.ai |-> <<r.ai[i][1], r.ai[i][2], r.ai[i][3], Norm(r.ai[i][4])>>], H.andin),
        start_and_end_activities |-> Exact(r.starts, H.sa) /\ Exact(r.ends, H.ea)]
     [] r.op = "net" ->
       [labels_are_the_activities |-> Exact(r.labs, {name(a) : a \in H.V}),
        net_behaves_like_the_dependency_graph |-> Same(CausalNet(H, name), r.net),
        net_fires_the_words_of_the_dependency_graph |-> Fireable(CausalNet(H, name), 3) = Fireable(r.net, 3)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
