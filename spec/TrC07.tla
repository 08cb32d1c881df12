---- MODULE TrC07 ----
(* Token-based replay.  The replay walks through a sequence of transitions (act): visible ones for
   the events, in between silent ones of its choice.  Everything it reports follows from that walk. *)
EXTENDS Tk, Nets
VARIABLE l

VecSum(v) == SumSeq(v)
Deficit(pre, m) == [p \in DOMAIN m |-> Max2(0, pre[p] - m[p])]
Z(net) == [p \in DOMAIN net.im |-> 0]
Plus(a, b) == [p \in DOMAIN a |-> a[p] + b[p]]
\* state of the walk: marking, tokens produced/consumed/missing per place, ok (silent transitions need their tokens), transitions that lacked tokens
RECURSIVE Walk(_, _, _)
Walk(net, ts, s) ==
  IF ts = <<>> THEN s
  ELSE LET t == net.t[Head(ts)]
           d == Deficit(t.pre, s.m)
           lacking == VecSum(d) > 0
       IN  Walk(net, Tail(ts),
                [m |-> [p \in DOMAIN s.m |-> s.m[p] + d[p] - t.pre[p] + t.post[p]],
                 P |-> Plus(s.P, t.post), C |-> Plus(s.C, t.pre), M |-> Plus(s.M, d),
                 ok |-> s.ok /\ (t.lab = "" => ~ lacking),
                 prob |-> IF lacking THEN Append(s.prob, Head(ts)) ELSE s.prob])
Replay(net, ts) ==
  LET w == Walk(net, ts, [m |-> net.im, P |-> net.im, C |-> Z(net), M |-> Z(net), ok |-> TRUE, prob |-> <<>>])
      d == Deficit(net.fm, w.m)
  IN  [m |-> w.m, P |-> w.P, C |-> Plus(w.C, net.fm), M |-> Plus(w.M, d),
       R |-> [p \in DOMAIN w.m |-> Max2(0, w.m[p] - net.fm[p])], ok |-> w.ok, prob |-> w.prob]

VLabs(net) == {net.t[i].lab : i \in DOMAIN net.t} \ {""}
Known(net, w) == SelectSeq(w, LAMBDA a : a \in VLabs(net))
VisLabels(net, ts) == SelectSeq([i \in DOMAIN ts |-> net.t[ts[i]].lab], LAMBDA a : a # "")
\* one token moving around: here looking for silent detours along shortest paths misses nothing
StateMachine(net) ==
  /\ VecSum(net.im) = 1 /\ VecSum(net.fm) = 1
  /\ \A i \in DOMAIN net.t : VecSum(net.t[i].pre) = 1 /\ VecSum(net.t[i].post) = 1
UniqueLabels(net) == \A i, j \in DOMAIN net.t : (net.t[i].lab # "" /\ net.t[i].lab = net.t[j].lab) => i = j
NoSilent(net) == \A i \in DOMAIN net.t : net.t[i].lab # ""
Close(x, y, tol) == Abs(x - y) <= tol

\* visible transitions enabled after some silent firings
RECURSIVE SilFix(_, _, _)
SilFix(net, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == {[p \in DOMAIN m |-> m[p] - net.t[t].pre[p] + net.t[t].post[p]] : <<m, t>> \in
                     {x \in front \X DOMAIN net.t : net.t[x[2]].lab = "" /\ VecSum(Deficit(net.t[x[2]].pre, x[1])) = 0}} \ seen
       IN  SilFix(net, new, seen \cup new)
Eventually(net, m) == LET ms == SilFix(net, {m}, {m})
                      IN  {t \in DOMAIN net.t : net.t[t].lab # "" /\ \E x \in ms : VecSum(Deficit(net.t[t].pre, x)) = 0}
Counts(x) == <<x.fit, x.p, x.c, x.m, x.r, x.f>>
Check(r) ==
  LET net == r.net
      n == Len(r.ws)
      same == Len(r.r) = n
      rp == [i \in 1 .. n |-> Replay(net, r.r[i].act)]
      clean(i) == r.r[i].m = 0 /\ r.r[i].r = 0
      unknown(i) == Known(net, r.ws[i]) # r.ws[i]
      P(i) == VecSum(rp[i].P)
      C(i) == VecSum(rp[i].C)
      sum(k) == SumSeq([i \in 1 .. n |-> CASE k = "p" -> r.r[i].p [] k = "c" -> r.r[i].c [] k = "m" -> r.r[i].m [] k = "r" -> r.r[i].r])
      \* the log-level figures are computed without the options
      plain == r.opt \notin {"nowalk", "noreach"}
      fits == {i \in 1 .. n : clean(i)}
  IN IF ~ same THEN [one_result_per_case |-> FALSE] ELSE
      [tokens_add_up |-> \A i \in 1 .. n : r.r[i].p + r.r[i].m = r.r[i].c + r.r[i].r,
       activated_transitions_explain_the_trace |-> \A i \in 1 .. n : VisLabels(net, r.r[i].act) = Known(net, r.ws[i]),
       silent_transitions_were_enabled |-> \A i \in 1 .. n : rp[i].ok,
       produced |-> \A i \in 1 .. n : r.r[i].p = P(i),
       consumed |-> \A i \in 1 .. n : r.r[i].c = C(i),
       missing |-> \A i \in 1 .. n : r.r[i].m = VecSum(rp[i].M),
       remaining |-> \A i \in 1 .. n : r.r[i].r = VecSum(rp[i].R),
       reached_marking |-> \A i \in 1 .. n : r.r[i].mk = rp[i].m,
       transitions_with_problems |-> \A i \in 1 .. n : r.r[i].prob = rp[i].prob,
       fitting_iff_nothing_missing_or_remaining |-> \A i \in 1 .. n :
           r.r[i].fit = ((IF r.opt = "norem" THEN rp[i].prob = <<>> ELSE clean(i)) /\ ~ (r.strict /\ unknown(i))),
       transitions_enabled_at_the_end |-> \A i \in 1 .. n : r.r[i].few => {r.r[i].en[k] : k \in DOMAIN r.r[i].en} = Eventually(net, r.r[i].mk) /\ NoDup(r.r[i].en),
       labels_of_the_named_transitions |-> Has(r, "lok") => r.lok,
       \* without walking through silent transitions, only the last event may be followed by some
       no_walk_no_silent_before_an_event |-> r.opt = "nowalk" => \A i \in 1 .. n :
           \A k \in DOMAIN r.r[i].act : net.t[r.r[i].act[k]].lab = "" => \A j \in k .. Len(r.r[i].act) : net.t[r.r[i].act[j]].lab = "",
       no_silent_after_the_last_event |-> r.opt = "noreach" => \A i \in 1 .. n :
           r.r[i].act # <<>> => net.t[r.r[i].act[Len(r.r[i].act)]].lab # "",
       stopping_at_the_first_problem |-> Has(r, "stop") => Len(r.stop) = n /\ \A i \in 1 .. n :
           IF r.r[i].prob = <<>> THEN Counts(r.stop[i]) = Counts(r.r[i]) ELSE ~ r.stop[i].fit /\ r.stop[i].m > 0 /\ r.stop[i].np = 1,
       diagnostics_table |-> Has(r, "frame") => Len(r.frame) = n /\ SameBag([i \in DOMAIN r.frame |-> r.frame[i].id], r.ids)
           /\ \A i \in DOMAIN r.frame, j \in 1 .. n : r.frame[i].id = r.ids[j] => Counts(r.frame[i]) = Counts(r.r[j]),
       variants_replay_like_their_traces |-> Has(r, "vl") => Len(r.vl) = Len(r.vws) /\ \A i \in DOMAIN r.vws :
           \A j \in 1 .. n : r.ws[j] = r.vws[i] => Counts(r.vl[i]) = Counts(r.r[j]),
       variant_dictionary_replays_like_its_traces |-> Has(r, "vd") => Len(r.vd) = Len(r.vws) /\ \A i \in DOMAIN r.vws :
           \A j \in 1 .. n : r.ws[j] = r.vws[i] => Counts(r.vd[i]) = Counts(r.r[j]),
       trace_fitness |-> \A i \in 1 .. n :
           LET p == r.r[i].p
               c == r.r[i].c
           IN  IF p > 0 /\ c > 0 THEN RatEq(r.r[i].f, <<(c - r.r[i].m) * p + (p - r.r[i].r) * c, 2 * p * c>>) ELSE r.r[i].f = <<1, 1>>,
       fitting_traces_are_runs |-> r.opt # "norem" => \A i \in 1 .. n : r.r[i].fit => Accepts(net, Known(net, r.ws[i])),
       runs_are_fitting |-> (UniqueLabels(net) /\ (NoSilent(net) \/ (StateMachine(net) /\ r.opt \notin {"nowalk", "noreach"}))) =>
           \A i \in 1 .. n : (~ unknown(i) /\ Accepts(net, r.ws[i])) => r.r[i].fit,
       percentage_of_fitting_cases |-> plain => (Close(r.perc, (100000 * Cardinality(fits)) \div n, 1) /\ r.perc = r.perc2),
       average_fitness |-> plain => Close(r.avg, SumSeq([i \in 1 .. n |-> (1000000 * r.r[i].f[1]) \div r.r[i].f[2]]) \div n, n + 2),
       log_fitness |-> (plain /\ sum("c") > 0 /\ sum("p") > 0) =>
           RatEq(r.log, Norm(<<(sum("c") - sum("m")) * sum("p") + (sum("p") - sum("r")) * sum("c"), 2 * sum("p") * sum("c")>>)),
       place_counters |-> Has(r, "pf") => \A p \in DOMAIN net.im :
           /\ r.pf[1][p] = SumSeq([i \in 1 .. n |-> rp[i].P[p]])
           /\ r.pf[2][p] = SumSeq([i \in 1 .. n |-> rp[i].C[p]])
           /\ r.pf[3][p] = SumSeq([i \in 1 .. n |-> rp[i].M[p]])
           /\ r.pf[4][p] = SumSeq([i \in 1 .. n |-> rp[i].R[p]])]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
