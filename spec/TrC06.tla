---- MODULE TrC06 ----
(* Fitness of traces and logs, derived from the cheapest alignments of module Nets.
   Costs are counted in deviations: silent moves are free, other deviating moves cost 1. *)
EXTENDS Tk, Nets
VARIABLE l
Dev(net, w) == OptCost(net, w, [i \in DOMAIN w |-> 1], [k \in DOMAIN net.t |-> IF net.t[k].lab = "" THEN 0 ELSE 1], [k \in DOMAIN net.t |-> 0])
Close(x, y, tol) == Abs(x - y) <= tol
Fitness(r) ==
  LET net == r.net
      n == Len(r.ws)
      dev == [i \in 1 .. n |-> Dev(net, r.ws[i])]
      shortest == Dev(net, <<>>)
      worst == [i \in 1 .. n |-> Len(r.ws[i]) + shortest]
      fits == {i \in 1 .. n : dev[i] = 0}
      \* fitness times 10^6
      fit6 == [i \in 1 .. n |-> IF worst[i] = 0 THEN 1000000 ELSE 1000000 - (1000000 * dev[i]) \div worst[i]]
      sw == SumSeq(worst)
  IN  [spec_language_agrees |-> \A i \in 1 .. n : (dev[i] = 0) = Accepts(net, r.ws[i]),
       one_result_per_case |-> Len(r.d) = n,
       cost_counts_the_deviations |-> Len(r.d) = n => \A i \in 1 .. n : r.d[i].cost = dev[i],
       worst_cost |-> Len(r.d) = n => \A i \in 1 .. n : r.d[i].bwc = worst[i],
       trace_fitness |-> Len(r.d) = n => \A i \in 1 .. n :
           IF worst[i] = 0 THEN r.d[i].f = <<1, 1>> ELSE RatEq(r.d[i].f, <<worst[i] - dev[i], worst[i]>>),
       percentage_of_fitting_cases |-> Close(r.perc, (100000 * Cardinality(fits)) \div n, 1) /\ r.perc = r.perc2,
       average_fitness |-> Close(r.avg, SumSeq(fit6) \div n, 2) /\ r.avg = r.avg2,
       \* silent moves cost 1/10000 of a deviation: they disappear in the tolerance
       log_fitness |-> sw = 0 \/ Close(r.log, 1000000 - (1000000 * SumSeq(dev)) \div sw, 1000 + (10000 * n) \div sw)]
Check(r) == IF r.op = "fitness" THEN Fitness(r)
            ELSE [fitting_iff_a_run_of_the_model |-> \A i \in DOMAIN r.ws : r.ans[i] = Accepts(r.net, r.ws[i])]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
