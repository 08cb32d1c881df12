---- MODULE TrC14 ----
EXTENDS Logs
VARIABLE l
Check(r) ==
  CASE r.op = "dfg" -> [directly_follows |-> Exact(r.df, Dfg(r.w)), start_activities |-> Exact(r.sa, Starts(r.w)), end_activities |-> Exact(r.ea, Ends(r.w))]
    [] r.op = "win" -> [directly_follows |-> Exact(r.df, IF r.once THEN DfgOnce(r.w, r.win) ELSE DfgWin(r.w, r.win))]
    [] r.op = "triples" -> [triples |-> Exact(r.df, Triples(r.w))]
    [] r.op = "efg" -> [eventually_follows |-> Exact(r.df, Efg(r.ev, r.first))]
    [] r.op = "ca" ->
         LET E == UNION {{<<c, i, r.w[c][i], r.w[c][i + 1]>> : i \in 1..(Len(r.w[c]) - 1)} : c \in DOMAIN r.w}
             V == UNION {{<<c, i, r.w[c][i]>> : i \in 1..Len(r.w[c])} : c \in DOMAIN r.w}
         IN  [annotated_arcs |-> Exact(r.arcs, {<<e[3], e[4], r.ca[e[1]], Cardinality({f \in E : f[3] = e[3] /\ f[4] = e[4] /\ r.ca[f[1]] = r.ca[e[1]]})>> : e \in E}),
              annotated_nodes |-> Exact(r.nodes, {<<e[3], r.ca[e[1]], Cardinality({f \in V : f[3] = e[3] /\ r.ca[f[1]] = r.ca[e[1]]})>> : e \in V})]
    [] r.op = "acts" -> [activity_counts |-> Exact(r.acts, ActCount(r.w))]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
