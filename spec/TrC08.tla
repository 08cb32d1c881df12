---- MODULE TrC08 ----
(* Footprints of logs, trees, nets and directly-follows graphs, and their comparison. *)
EXTENDS Fprint
VARIABLE l
Rel(x) == {<<p[1], p[2]>> : p \in Range(x)}
Pairs(f) == Rel(f.seq) \cup Rel(f.par)
LogFp(r) ==
  LET D == LogDf(r.ws)
      f == r.f
      base == [sequence_is_the_one_directional_part |-> Rel(f.seq) = SeqPart(D),
               parallel_is_the_two_directional_part |-> Rel(f.par) = ParPart(D),
               pairs_counted |-> {<<p[1], p[2]>> : p \in Range(f.dfg)} = D /\ Len(f.dfg) = Cardinality(D)
                                 /\ \A i \in DOMAIN f.dfg : f.dfg[i][3] = DfCount(r.ws, f.dfg[i]),
               start_activities |-> Range(f.starts) = LogStarts(r.ws), end_activities |-> Range(f.ends) = LogEnds(r.ws),
               activities |-> Range(f.acts) = LogActs(r.ws), minimum_trace_length |-> f.min = LogMin(r.ws)]
  IN  base
TreeFp(r) ==
  LET P == ProcFp(r.tree)
      f == r.f
  IN  [spec_derivatives_agree |-> ProcMin(r.tree) >= 0,
       tree_directly_follows |-> Pairs(f) = P.df,
       tree_sequence_and_parallel |-> Rel(f.seq) = SeqPart(P.df) /\ Rel(f.par) = ParPart(P.df),
       tree_start_activities |-> Range(f.starts) = P.starts, tree_end_activities |-> Range(f.ends) = P.ends,
       tree_activities |-> Range(f.acts) = P.acts, tree_minimum_length |-> f.min = ProcMin(r.tree),
       tree_skippable |-> f.skip = Nullable(r.tree),
       tree_always_happening |-> Range(f.always) = P.always]
NFp(r) ==
  LET P == NetFp(r.net)
      f == r.f
  IN  [net_directly_follows |-> Pairs(f) = P.df,
       net_sequence_and_parallel |-> Rel(f.seq) = SeqPart(P.df) /\ Rel(f.par) = ParPart(P.df),
       net_start_activities |-> Range(f.starts) = P.starts, net_activities |-> Range(f.acts) = P.acts]
DFp(r) ==
  LET D == {<<p[1], p[2]>> : p \in Range(r.dfg)} IN
  [dfg_sequence_and_parallel |-> Rel(r.f.seq) = SeqPart(D) /\ Rel(r.f.par) = ParPart(D),
   dfg_activities |-> Range(r.f.acts) = {p[1] : p \in D} \cup {p[2] : p \in D}]

Close(x, y, tol) == Abs(x - y) <= tol
\* the model side is taken from the footprints the tool itself computed (judged above): m = [pairs, starts, ends, always, min], absent parts are empty sequences of sequences
Dev(m, ws) == LogDf(ws) \ Rel(m.pairs)
SDev(m, ws) == IF m.hs THEN LogStarts(ws) \ Range(m.starts) ELSE {}
EDev(m, ws) == IF m.he THEN LogEnds(ws) \ Range(m.ends) ELSE {}
ADev(m, ws) == IF m.ha THEN Range(m.always) \ LogActs(ws) ELSE {}
MinOk(m, ws) == m.min <= LogMin(ws)
OneOk(m, ws, c, traces) ==
  /\ Rel(c.fp) = Dev(m, ws) /\ Range(c.starts) = SDev(m, ws) /\ Range(c.ends) = EDev(m, ws)
  /\ c.min = MinOk(m, ws)
  /\ (traces => Range(c.always) = ADev(m, ws))
  /\ c.fit = (Dev(m, ws) = {} /\ SDev(m, ws) = {} /\ EDev(m, ws) = {} /\ MinOk(m, ws) /\ (traces => ADev(m, ws) = {}))
Conf(r) ==
  LET m == r.m
      n == Len(r.ws)
      D == LogDf(r.ws)
      total == SumFun([p \in D |-> DfCount(r.ws, p)], D)
      dev == SumFun([p \in D |-> DfCount(r.ws, p)], Dev(m, r.ws))
      \* case by case, a pair may be one-directional in one case and two-directional in another
      rels == IF r.traces THEN Cardinality(UNION {SeqPart(WPairs(r.ws[i])) : i \in 1 .. n}) + Cardinality(UNION {ParPart(WPairs(r.ws[i])) : i \in 1 .. n})
              ELSE Cardinality(D)
      s == Cardinality(LogStarts(r.ws))
      e == Cardinality(LogEnds(r.ws))
      num == (total - dev) * rels + total * (s + e - Cardinality(SDev(m, r.ws)) - Cardinality(EDev(m, r.ws)))
      den == total * (rels + s + e)
      fitcases == {i \in 1 .. n : OneOk(m, <<r.ws[i]>>, r.c[i], TRUE) /\ r.c[i].fit}
  IN  [deviations_are_the_log_pairs_outside_the_model |->
         IF r.traces THEN Len(r.c) = n /\ \A i \in 1 .. n : OneOk(m, <<r.ws[i]>>, r.c[i], TRUE)
         ELSE Len(r.c) = 1 /\ OneOk(m, r.ws, r.c[1], FALSE),
       diagnostics_table |-> (Has(r, "frame") /\ Len(r.c) = n) => r.frame = [i \in 1 .. n |->
           <<r.ids[i], r.c[i].fit, r.c[i].min, Len(r.c[i].fp), Len(r.c[i].starts), Len(r.c[i].ends), Len(r.c[i].always)>>],
       fitness_formula |-> IF total = 0 THEN r.fit = <<1, 1>> ELSE RatEq(r.fit, <<num, den>>),
       percentage_of_fitting_cases |-> r.traces => (Len(r.c) = n => Close(r.perc, (100000 * Cardinality({i \in 1 .. n : r.c[i].fit})) \div n, 1)),
       precision_formula |-> IF Rel(m.pairs) = {} THEN r.prec = <<1, 1>>
                             ELSE RatEq(r.prec, <<Cardinality(D \cap Rel(m.pairs)), Cardinality(Rel(m.pairs))>>),
       strict_comparison |-> Rel(r.strict) = IF r.traces THEN Rel(r.strict) ELSE (SeqPart(D) \ Rel(m.seq)) \cup (ParPart(D) \ Rel(m.par))]
Check(r) == CASE r.op = "log" -> LogFp(r)
              [] r.op = "tree" -> TreeFp(r)
              [] r.op = "net" -> NFp(r)
              [] r.op = "dfg" -> DFp(r)
              [] r.op = "conf" -> Conf(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
