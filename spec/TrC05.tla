---- MODULE TrC05 ----
(* Alignments: a sequence of moves <<log side?, log label, transition (0: none), model label>>. *)
EXTENDS Tk, Nets
VARIABLE l
LogSide(mv) == [k \in DOMAIN SelectSeq(mv, LAMBDA x : x[1] = 1) |-> SelectSeq(mv, LAMBDA x : x[1] = 1)[k][2]]
ModelSide(mv) == [k \in DOMAIN SelectSeq(mv, LAMBDA x : x[3] > 0) |-> SelectSeq(mv, LAMBDA x : x[3] > 0)[k][3]]
MoveOK(net, x) == /\ x[1] = 1 \/ x[3] > 0
                  /\ x[3] > 0 => x[4] = net.t[x[3]].lab
                  /\ (x[1] = 1 /\ x[3] > 0) => x[2] = net.t[x[3]].lab
RECURSIVE CostOf(_, _, _, _, _)
\* i: events consumed so far
CostOf(mv, i, lc, mc, sc) ==
  IF mv = <<>> THEN 0
  ELSE LET x == Head(mv)
       IN  IF x[1] = 1 /\ x[3] > 0 THEN sc[x[3]] + CostOf(Tail(mv), i + 1, lc, mc, sc)
           ELSE IF x[1] = 1 THEN lc[i + 1] + CostOf(Tail(mv), i + 1, lc, mc, sc)
           ELSE mc[x[3]] + CostOf(Tail(mv), i, lc, mc, sc)
Scale(s) == [i \in DOMAIN s |-> s[i] \div 10000]
\* a complete, well-formed alignment of r.w on r.net
ValidAl(r, mv) == LET fs == FireSeq(r.net, r.net.im, ModelSide(mv))
                  IN  (\A i \in DOMAIN mv : MoveOK(r.net, mv[i])) /\ LogSide(mv) = r.w /\ fs[1] /\ fs[2] = r.net.fm
RECURSIVE Pow(_, _), Discounted(_, _, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* the i-th move (from 0), unless synchronous, costs b^-i; everything scaled by b^n
Discounted(mv, b, i) == IF i = Len(mv) THEN 0
                        ELSE (IF mv[i + 1][1] = 1 /\ mv[i + 1][3] > 0 THEN 0 ELSE Pow(b, Len(mv) - i)) + Discounted(mv, b, i + 1)
CheckDisc(r) == IF r.none THEN [an_alignment_is_found |-> r.net.fm \notin Reach(r.net, r.net.im)]
                ELSE [discounted_search_gives_an_alignment |-> ValidAl(r, r.mv),
                      discounted_cost_of_the_moves |-> r.cost = Discounted(r.mv, r.expo, 0)]
CheckMany(r) ==
  LET best == OptCost(r.net, r.w, r.lc, r.mc, r.sc)
  IN  [an_alignment_is_found |-> r.res # <<>> \/ r.net.fm \notin Reach(r.net, r.net.im),
       every_enumerated_alignment_is_valid |-> \A i \in DOMAIN r.res : ValidAl(r, r.res[i].mv),
       every_enumerated_alignment_is_optimal |-> \A i \in DOMAIN r.res : r.res[i].cost = best /\ (ValidAl(r, r.res[i].mv) => CostOf(r.res[i].mv, 0, r.lc, r.mc, r.sc) = best),
       enumerated_alignments_differ |-> \A i, j \in DOMAIN r.res : i # j => r.res[i].mv # r.res[j].mv]
Check(r) ==
  IF r.op = "disc" THEN CheckDisc(r)
  ELSE IF r.op = "many" THEN CheckMany(r)
  ELSE IF r.none THEN [an_alignment_is_found |-> r.net.fm \notin Reach(r.net, r.net.im)]
  ELSE
  LET net == r.net
      ts == ModelSide(r.mv)
      fs == FireSeq(net, net.im, ts)
      okmoves == \A i \in DOMAIN r.mv : MoveOK(net, r.mv[i])
      logok == LogSide(r.mv) = r.w
      \* this variant prices some silent transitions at zero when it chooses the costs itself
      coarse == r.variant = "VERSION_DIJKSTRA_LESS_MEMORY" /\ ~ r.custom
      lc == IF coarse THEN Scale(r.lc) ELSE r.lc
      mc == IF coarse THEN Scale(r.mc) ELSE r.mc
      cost == IF coarse THEN r.cost \div 10000 ELSE r.cost
      best == OptCost(net, r.w, lc, mc, r.sc)
  IN  [moves_are_well_formed |-> okmoves,
       log_side_is_the_trace |-> logok,
       model_side_is_a_complete_run |-> fs[1] /\ fs[2] = net.fm,
       cost_is_the_sum_of_the_moves |-> (okmoves /\ logok) => cost = CostOf(r.mv, 0, lc, mc, r.sc),
       cost_is_minimal |-> cost = best]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
