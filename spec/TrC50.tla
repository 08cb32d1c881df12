---- MODULE TrC50 ----
\* C50: distances of languages, causal graphs, correlation without cases
EXTENDS Transport
VARIABLE l
\* val: rational times 1
Emd(r) ==
  LET n == Len(r.x)
      c == IF r.how = "lev" THEN Cost(r.x, r.y, Dist60) ELSE Cost(r.x, r.y, Differ)
  IN  [distance |-> RatEq(r.val, <<c, 60 * n>>), symmetric |-> RatEq(r.rev, r.val), zero_iff_equal |-> (r.val[1] = 0) <=> SameBag(r.x, r.y)]
W(r, p) == IF \E i \in DOMAIN r.dfg : <<r.dfg[i][1], r.dfg[i][2]>> = p THEN (CHOOSE x \in Range(r.dfg) : <<x[1], x[2]>> = p)[3] ELSE 0
Pairs(r) == {<<x[1], x[2]>> : x \in Range(r.dfg)}
Inv(p) == <<p[2], p[1]>>
Causal(r) ==
  [alpha |-> NoDup(r.alpha) /\ Range(r.alpha) = {p \in Pairs(r) : W(r, p) > 0 /\ W(r, Inv(p)) = 0},
   heuristic |-> NoDup([i \in DOMAIN r.heur |-> <<r.heur[i][1], r.heur[i][2]>>]) /\ {<<x[1], x[2]>> : x \in Range(r.heur)} = Pairs(r) \cup {Inv(p) : p \in Pairs(r)}
                 /\ \A x \in Range(r.heur) : LET p == <<x[1], x[2]>> IN p[1] # p[2] => RatEq(x[3], <<W(r, p) - W(r, Inv(p)), W(r, p) + W(r, Inv(p)) + 1>>)]
\* ---- correlation: completions matched with later starts, first come first served from the front or from the back
RECURSIVE Front(_, _, _, _)
Front(c, s, k, z) == IF k > Len(c) \/ z > Len(s) THEN <<>> ELSE IF c[k] < s[z] THEN <<s[z] - c[k]>> \o Front(c, s, k + 1, z + 1) ELSE Front(c, s, k, z + 1)
RECURSIVE Back(_, _, _, _)
Back(c, s, k, z) == IF k < 1 \/ z < 1 THEN <<>> ELSE IF c[k] < s[z] THEN <<s[z] - c[k]>> \o Back(c, s, k - 1, z - 1) ELSE Back(c, s, k - 1, z)
Row(g, a) == SortSeq(SelectSeq(g, LAMBDA e : e.a = a), LAMBDA x, y : x.s < y.s \/ (x.s = y.s /\ x.t < y.t))
Fin(q) == [i \in DOMAIN q |-> q[i].t]
Sta(q) == [i \in DOMAIN q |-> q[i].s]
Mean(q) == IF q = <<>> THEN <<0, 1>> ELSE <<SumSeq(q), Len(q)>>
\* r.ev: the groups of events to be looked at together (all events, or one group per case)
Dur(r, a, b) ==
  LET F == Flatten([g \in DOMAIN r.ev |-> Front(Fin(Row(r.ev[g], a)), Sta(Row(r.ev[g], b)), 1, 1)])
      B == Flatten([g \in DOMAIN r.ev |-> LET x == Fin(Row(r.ev[g], a)) y == Sta(Row(r.ev[g], b)) IN Back(x, y, Len(x), Len(y))])
  IN  IF RatLe(Mean(F), Mean(B)) THEN Mean(F) ELSE Mean(B)
Occ(r, a) == Cardinality({<<g, i>> \in {<<g, i>> \in (DOMAIN r.ev) \X (1..60) : i <= Len(r.ev[g])} : r.ev[g][i].a = a})
Acts(r) == UNION {{e.a : e \in Range(r.ev[g])} : g \in DOMAIN r.ev}
Out(r, a) == SumSeq([i \in DOMAIN r.dfg |-> IF r.dfg[i][1] = a THEN r.dfg[i][3] ELSE 0])
In(r, a) == SumSeq([i \in DOMAIN r.dfg |-> IF r.dfg[i][2] = a THEN r.dfg[i][3] ELSE 0])
Corr(r) ==
  [activities |-> \A x \in Range(r.dfg) : x[1] \in Acts(r) /\ x[2] \in Acts(r) /\ x[3] > 0,
   every_occurrence_once |-> \A a \in Acts(r) : Out(r, a) = Occ(r, a) /\ In(r, a) = Occ(r, a),
   same_arcs |-> Pairs(r) = {<<x[1], x[2]>> : x \in Range(r.perf)},
   times |-> \A x \in Range(r.perf) : RatEq(x[3], IF x[1] = x[2] THEN <<0, 1>> ELSE Dur(r, x[1], x[2]))]
Check(r) == CASE r.op = "emd" -> Emd(r) [] r.op = "causal" -> Causal(r) [] r.op = "corr" -> Corr(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
