---- MODULE TrC21 ----
(* Streaming conformance.  Token replay: every event moves exactly one case along one of the outcomes the rule allows, *)
(* from the reported state.  Footprints and temporal profile: deterministic state machines.                            *)
EXTENDS Stream
VARIABLE l
StateMachine(net) ==
  /\ SumSeq(net.im) = 1 /\ SumSeq(net.fm) = 1
  /\ \A i \in DOMAIN net.t : SumSeq(net.t[i].pre) = 1 /\ SumSeq(net.t[i].post) = 1
Known(net, w) == SelectSeq(w, LAMBDA a : \E i \in DOMAIN net.t : net.t[i].lab = a)
Row(st, c) == LET S == {i \in DOMAIN st : st[i][1] = c} IN IF S = {} THEN <<>> ELSE st[CHOOSE i \in S : TRUE]
\* activities of the open instance of the case before step k (since it was last closed)
RECURSIVE Sofar(_, _, _)
Sofar(steps, c, k) ==
  IF k = 0 THEN <<>>
  ELSE LET s == steps[k] IN
       IF s.o = "all" \/ (s.o = "x" /\ s.c = c) THEN <<>>
       ELSE IF s.o = "e" /\ s.c = c THEN Append(Sofar(steps, c, k - 1), s.a) ELSE Sofar(steps, c, k - 1)
Tbr(r) ==
  LET net == r.net
      K == DOMAIN r.steps
      before(k) == IF k = 1 THEN <<>> ELSE r.steps[k - 1].st
      ev(k) == r.steps[k].o = "e"
      known(k) == \E i \in DOMAIN net.t : net.t[i].lab = r.steps[k].a
      old(k) == LET x == Row(before(k), r.steps[k].c) IN IF x = <<>> THEN <<r.steps[k].c, net.im, 0, 0, TRUE>> ELSE x
      new(k) == Row(r.steps[k].st, r.steps[k].c)
      E == {k \in K : ev(k) /\ known(k)}
      U == {k \in K : ev(k) /\ ~ known(k)}
      X == {k \in K : r.steps[k].o = "x"}
      XR == {k \in X : r.steps[k].r # <<>>}
      D(k) == TbrDirect(net, old(k)[2], r.steps[k].a)
      sm == StateMachine(net)
      clean(k) == {x \in TbrOut(net, old(k)[2], r.steps[k].a) : x[2] = 0}
      goal(k) == net.fm \in TauClosure(net, {old(k)[2]})
      word(k) == Known(net, Sofar(r.steps, r.steps[k].c, k - 1))
  IN  [event_has_one_of_the_possible_outcomes |-> \A k \in E : new(k) # <<>> /\ <<new(k)[2], new(k)[3] - old(k)[3]>> \in TbrOut(net, old(k)[2], r.steps[k].a),
       enabled_activity_fires_without_missing_tokens |-> \A k \in E : (D(k) # {} /\ new(k) # <<>>) => new(k)[3] = old(k)[3] /\ new(k)[2] \in D(k),
       silent_steps_are_found_with_a_single_token |-> sm => \A k \in E : (clean(k) # {} /\ new(k) # <<>>) => new(k)[3] = old(k)[3],
       unknown_activity_changes_nothing |-> \A k \in U : r.steps[k].st = before(k),
       other_cases_are_not_affected |-> \A k \in K : r.steps[k].o # "all" =>
           {i \in Range(before(k)) : i[1] # r.steps[k].c} = {i \in Range(r.steps[k].st) : i[1] # r.steps[k].c},
       closed_cases_are_forgotten |-> \A k \in K : (r.steps[k].o = "x" => new(k) = <<>>) /\ (r.steps[k].o = "all" => r.steps[k].st = <<>>),
       closing_reports_exactly_open_cases |-> \A k \in X : (r.steps[k].r = <<>>) = (Row(before(k), r.steps[k].c) = <<>>),
       report_agrees_with_status |-> \A k \in K : \A i \in DOMAIN r.steps[k].st : LET x == r.steps[k].st[i] IN x[3] = x[4] /\ x[5] = (x[3] = 0),
       closing_outcome |-> \A k \in XR : /\ r.steps[k].r[1] = old(k)[2]
                                         /\ <<r.steps[k].r[2] - old(k)[3], r.steps[k].r[3]>> \in TbrEnd(net, old(k)[2]),
       final_marking_means_fit |-> \A k \in XR : old(k)[2] = net.fm => r.steps[k].r[2] = old(k)[3] /\ r.steps[k].r[3] = 0,
       silent_steps_to_the_final_marking_are_found |-> sm => \A k \in XR : (goal(k) /\ SumSeq(old(k)[2]) = 1) => r.steps[k].r[2] = old(k)[3] /\ r.steps[k].r[3] = 0,
       fit_iff_nothing_missing_or_remaining |-> \A k \in XR : r.steps[k].r[4] = (r.steps[k].r[2] = 0 /\ r.steps[k].r[3] = 0),
       fitting_cases_are_runs |-> \A k \in XR : r.steps[k].r[4] => Accepts(net, word(k))]
Fp(r) ==
  LET fp == [acts |-> Range(r.fp.acts), starts |-> Range(r.fp.starts), ends |-> Range(r.fp.ends), rel |-> {<<x[1], x[2]>> : x \in Range(r.fp.rel)}]
      n == Len(r.steps)
      S[k \in 0 .. n] ==
        IF k = 0 THEN FpInit
        ELSE LET p == S[k - 1]
                 s == r.steps[k]
             IN  IF s.o = "e" THEN FpStep(fp, p, <<s.c, s.a>>) ELSE IF s.o = "x" THEN FpForget(p, s.c) ELSE FpInit
  IN  [status_of_open_cases |-> \A k \in 1 .. n : LET st == S[k] IN
           /\ {x[1] : x \in Range(r.steps[k].st)} = DOMAIN st.dev
           /\ \A x \in Range(r.steps[k].st) : x[2] = (st.dev[x[1]] = 0),
       status_agrees_with_report |-> \A k \in 1 .. n : \A x \in Range(r.steps[k].st) : x[2] = x[3],
       closing_verdict |-> \A k \in {k \in 1 .. n : r.steps[k].o = "x"} :
           LET p == S[k - 1]
               c == r.steps[k].c
           IN  r.steps[k].r = IF c \in DOMAIN p.dev THEN <<FpClose(fp, p, c) = 0>> ELSE <<>>,
       verdict_depends_on_the_case_only |-> \A k \in {k \in 1 .. n : r.steps[k].o = "x" /\ r.steps[k].r # <<>>} :
           LET w == Sofar(r.steps, r.steps[k].c, k - 1) IN r.steps[k].r[1] = (FpDevs(fp, w) + FpEnd(fp, w) = 0)]
Temp(r) ==
  LET prof == Range(r.prof)
      D(i, k) == TempDev(prof, r.zeta, r.steps[i], r.steps[k])
      \* deviations of case c up to step k: later events first compared with earlier ones in order
      Prs(c, k) == {<<j, i>> \in (1 .. k) \X (1 .. k) : i < j /\ r.steps[i].c = c /\ r.steps[j].c = c /\ D(i, j) # {}}
      Ord(S) == SortSeq(SetToSeqAny(S), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
      Exp(c, k) == LET o == Ord(Prs(c, k)) IN [m \in DOMAIN o |-> CHOOSE d \in D(o[m][2], o[m][1]) : TRUE]
      Zeta(d) == IF d[5] = 0 THEN <<-1, 1>> ELSE <<Abs(d[3] - d[4]), d[5]>>
      Same(o, d) == o[1] = d[1] /\ o[2] = d[2] /\ o[3] = d[3] /\ RatEq(o[4], Zeta(d))
      n == Len(r.steps)
  IN  [deviations_of_every_case |-> \A k \in 1 .. n :
           /\ {x[1] : x \in Range(r.steps[k].st)} = {c \in 1 .. r.n : Prs(c, k) # {}}
           /\ \A x \in Range(r.steps[k].st) : LET e == Exp(x[1], k) IN Len(e) = Len(x[2]) /\ \A i \in DOMAIN e : Same(x[2][i], e[i])]
Check(r) == CASE r.op = "tbr" -> Tbr(r) [] r.op = "fp" -> Fp(r) [] r.op = "temp" -> Temp(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
