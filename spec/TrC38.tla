---- MODULE TrC38 ----
\* C38: alignments of traces with directly-follows graphs, process trees and other logs; tables and parallel computation of net alignments
\* moves: <<log activity or "", model activity or "", 1 iff the move is synchronous>> ("" on the model side of a synchronous move does not occur; silent model moves are left out)
EXTENDS Tk, Nets
VARIABLE l
INF == 100000000
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
LogSide(mv) == MapSeq(SelectSeq(mv, LAMBDA x : x[1] # ""), LAMBDA x : x[1])
ModSide(mv) == MapSeq(SelectSeq(mv, LAMBDA x : x[2] # ""), LAMBDA x : x[2])
Formed(mv) == \A x \in Range(mv) : (x[1] # "" \/ x[2] # "") /\ ((x[1] # "" /\ x[2] # "") => x[1] = x[2])
Devs(mv) == Cardinality({i \in DOMAIN mv : mv[i][1] = "" \/ mv[i][2] = ""})
\* ---- directly-follows graphs: g = [sa, ea: sequences of activities, df: sequence of pairs]; the start is "^", the end "$"
Nodes(g) == {"^", "$"} \cup Range(g.sa) \cup Range(g.ea) \cup UNION {{p[1], p[2]} : p \in Range(g.df)}
Edge(g, m, n) == CASE m = "^" -> n \in Range(g.sa) [] n = "$" -> m \in Range(g.ea) [] OTHER -> <<m, n>> \in Range(g.df)
Path(g, w) == w # <<>> /\ w[1] \in Range(g.sa) /\ w[Len(w)] \in Range(g.ea) /\ \A i \in 1..(Len(w) - 1) : <<w[i], w[i + 1]>> \in Range(g.df)
\* cheapest way to every node after the events read so far
RECURSIVE Settle(_, _, _, _)
Settle(g, c, f, k) ==
  IF k = 0 THEN f
  ELSE LET h == [n \in DOMAIN f |-> Mn({f[n]} \cup {f[m] + (IF n = "$" THEN 0 ELSE c.mc[n]) : m \in {x \in DOMAIN f : Edge(g, x, n) /\ f[x] < INF}})]
       IN  IF h = f THEN f ELSE Settle(g, c, h, k - 1)
Settled(g, c, f) == Settle(g, c, f, Cardinality(DOMAIN f))
RECURSIVE Layer(_, _, _, _)
Layer(g, c, w, i) ==
  IF i = 0 THEN Settled(g, c, [n \in Nodes(g) |-> IF n = "^" THEN 0 ELSE INF])
  ELSE LET p == Layer(g, c, w, i - 1)
       IN  Settled(g, c, [n \in Nodes(g) |-> Mn({p[n] + c.lc[w[i]]} \cup {p[m] + c.sc[n] : m \in {x \in Nodes(g) : n = w[i] /\ Edge(g, x, n)}})])
OptDfg(g, c, w) == Layer(g, c, w, Len(w))["$"]
CostOf(c, mv) == SumSeq(MapSeq(mv, LAMBDA x : IF x[2] = "" THEN c.lc[x[1]] ELSE IF x[1] = "" THEN c.mc[x[2]] ELSE c.sc[x[1]]))
Worst(g, c, w) == OptDfg(g, c, <<>>) + SumSeq(MapSeq(w, LAMBDA a : c.lc[a]))
Dfg(r) ==
  LET n == Len(r.ws) IN
  [one_result_per_case |-> Len(r.d) = n,
   moves |-> Len(r.d) = n => \A i \in 1..n : Formed(r.d[i].mv) /\ LogSide(r.d[i].mv) = r.ws[i] /\ Path(r.g, ModSide(r.d[i].mv)),
   cost_is_the_sum_of_the_moves |-> Len(r.d) = n => \A i \in 1..n : Formed(r.d[i].mv) => r.d[i].cost = CostOf(r.c, r.d[i].mv),
   cost_is_minimal |-> (Len(r.d) = n /\ r.exact) => \A i \in 1..n : r.d[i].cost = OptDfg(r.g, r.c, r.ws[i]),
   worst_cost |-> Len(r.d) = n => \A i \in 1..n : Has(r.d[i], "bwc") => r.d[i].bwc = Worst(r.g, r.c, r.ws[i]),
   fitness |-> Len(r.d) = n => \A i \in 1..n : (Has(r.d[i], "f") /\ r.exact) => LET w == Worst(r.g, r.c, r.ws[i]) IN RatEq(r.d[i].f, <<(w - OptDfg(r.g, r.c, r.ws[i])) \div r.unit, w \div r.unit>>)]
\* ---- projected logs: events <<activity, time, conforming>> of every trace; the events of the trace are <<activity, time>>
RECURSIVE LastConf(_, _)
LastConf(p, i) == IF i = 0 THEN 0 ELSE IF p[i][3] THEN i ELSE LastConf(p, i - 1)
ProjOK(e, p) ==
  LET C == {i \in DOMAIN p : p[i][3]}
      At(i) == {k \in DOMAIN e : e[k] = <<p[i][1], p[i][2]>>}
  IN  /\ \A i \in C : At(i) # {}
      /\ \A i, j \in C : i < j => p[i][2] < p[j][2]
      /\ \A i \in DOMAIN p \ C : p[i][2] = (IF LastConf(p, i) = 0 THEN e[1][2] ELSE p[LastConf(p, i)][2])
ProjCost(e, p) == (Len(e) - Cardinality({i \in DOMAIN p : p[i][3]})) + Cardinality({i \in DOMAIN p : ~p[i][3]})
Acts(p) == MapSeq(p, LAMBDA x : x[1])
Project(r) ==
  [one_result_per_case |-> Len(r.p) = Len(r.e),
   conforming_events |-> Len(r.p) = Len(r.e) => \A i \in DOMAIN r.p : ProjOK(r.e[i], r.p[i]),
   original_trace |-> Len(r.p) = Len(r.e) => \A i \in DOMAIN r.p : r.orig[i] = Acts(r.e[i]),
   path |-> IF r.g.df = <<>> THEN \A i \in DOMAIN r.p : Acts(r.p[i]) = r.g.sa ELSE \A i \in DOMAIN r.p : Path(r.g, Acts(r.p[i])),
   minimal |-> (r.g.df # <<>> /\ Len(r.p) = Len(r.e)) => \A i \in DOMAIN r.p : ProjCost(r.e[i], r.p[i]) = OptDfg(r.g, r.c, Acts(r.e[i]))]
\* ---- process trees, given by their (own) net
Dev(net, w) == OptCost(net, w, [i \in DOMAIN w |-> 1], [k \in DOMAIN net.t |-> IF net.t[k].lab = "" THEN 0 ELSE 1], [k \in DOMAIN net.t |-> 0])
Tree(r) ==
  LET n == Len(r.ws)
      dev == [i \in 1..n |-> Dev(r.net, r.ws[i])]
      sh == Dev(r.net, <<>>)
      fit(i) == IF Len(r.ws[i]) + sh = 0 THEN <<0, 1>> ELSE <<Len(r.ws[i]) + sh - dev[i], Len(r.ws[i]) + sh>>
  IN [one_result_per_case |-> Len(r.d) = n,
      log_side |-> Len(r.d) = n => \A i \in 1..n : Formed(r.d[i].mv) /\ LogSide(r.d[i].mv) = r.ws[i],
      model_side |-> Len(r.d) = n => \A i \in 1..n : Accepts(r.net, ModSide(r.d[i].mv)),
      cost_counts_the_deviations |-> Len(r.d) = n => \A i \in 1..n : r.d[i].cost = Devs(r.d[i].mv),
      cost_is_minimal |-> (Len(r.d) = n /\ ~r.approx) => \A i \in 1..n : r.d[i].cost = dev[i],
      cost_is_no_less |-> Len(r.d) = n => \A i \in 1..n : r.d[i].cost >= dev[i],
      fitness |-> (Len(r.d) = n /\ ~r.approx) => \A i \in 1..n : Has(r.d[i], "f") => RatEq(r.d[i].f, fit(i))]
\* ---- alignments with the traces of another log
RECURSIVE LevRow(_, _, _, _)
LevRow(prev, a, w, acc) ==
  LET j == Len(acc) IN     \* acc[1] is the entry of the empty prefix
  IF j > Len(w) THEN acc
  ELSE LevRow(prev, a, w, Append(acc, Mn({prev[j + 1] + 1, acc[j] + 1, prev[j] + (IF a = w[j] THEN 0 ELSE 1)})))
RECURSIVE LevRows(_, _, _)
LevRows(v, w, i) == IF i = 0 THEN [j \in 1..(Len(w) + 1) |-> j - 1] ELSE LevRow(LevRows(v, w, i - 1), v[i], w, <<i>>)
Lev(v, w) == LevRows(v, w, Len(v))[Len(w) + 1]
Edit(r) ==
  LET n == Len(r.ws)
      T == Range(r.ws2)
      sh == Mn({Len(w) : w \in T})
      fit(i) == IF Devs(r.d[i].mv) = 0 THEN <<1, 1>> ELSE <<Len(r.ws[i]) + sh - Devs(r.d[i].mv), Len(r.ws[i]) + sh>>
  IN [one_result_per_case |-> Len(r.d) = n,
      log_side |-> Len(r.d) = n => \A i \in 1..n : Formed(r.d[i].mv) /\ LogSide(r.d[i].mv) = r.ws[i],
      model_side_is_a_trace |-> Len(r.d) = n => \A i \in 1..n : ModSide(r.d[i].mv) \in T,
      nearest_trace |-> (Len(r.d) = n /\ ~r.anti) => \A i \in 1..n : \A w \in T : Lev(r.ws[i], ModSide(r.d[i].mv)) <= Lev(r.ws[i], w),
      farthest_trace |-> (Len(r.d) = n /\ r.anti) => \A i \in 1..n : \A w \in T : Lev(r.ws[i], ModSide(r.d[i].mv)) >= Lev(r.ws[i], w),
      cost |-> Len(r.d) = n => \A i \in 1..n : r.d[i].cost = Devs(r.d[i].mv) * 10000,
      worst_cost |-> Len(r.d) = n => \A i \in 1..n : r.d[i].bwc = (Len(r.ws[i]) + sh) * 10000,
      fitness |-> Len(r.d) = n => \A i \in 1..n : Len(r.ws[i]) + sh > 0 => RatEq(r.d[i].f, fit(i))]
\* ---- Petri nets: per case or per variant, in a table, computed in parallel or decomposed
Net(r) ==
  LET n == Len(r.ws)
      dev == [i \in 1..n |-> Dev(r.net, r.ws[i])]
      sh == Dev(r.net, <<>>)
      ok(i) == Has(r.d[i], "f") => IF Len(r.ws[i]) + sh = 0 THEN r.d[i].f = <<1, 1>> ELSE RatEq(r.d[i].f, <<Len(r.ws[i]) + sh - dev[i], Len(r.ws[i]) + sh>>)
  IN [one_result_per_case |-> Len(r.d) = n,
      case_ids |-> Len(r.d) = n => \A i \in 1..n : Has(r.d[i], "id") => r.d[i].id = r.ids[i],
      cost_counts_the_deviations |-> Len(r.d) = n => \A i \in 1..n : r.d[i].cost = dev[i],
      fitness |-> Len(r.d) = n => \A i \in 1..n : ok(i),
      is_fit |-> Len(r.d) = n => \A i \in 1..n : Has(r.d[i], "fit") => r.d[i].fit = (dev[i] = 0)]
Check(r) == CASE r.op = "dfg" -> Dfg(r) [] r.op = "project" -> Project(r) [] r.op = "tree" -> Tree(r) [] r.op = "edit" -> Edit(r) [] r.op = "net" -> Net(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
