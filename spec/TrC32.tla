---- MODULE TrC32 ----
\* C32: execution of BPMN diagrams
EXTENDS Tk, BpmnTok, Procs
VARIABLE l
\* one visited marking: the enabled nodes, and for every node the outcomes of executing it ("<<>>" when it cannot execute)
At(r) ==
  LET b == r.b
      m == r.m
      X == {i \in DOMAIN b.n : CanRun(b, m, i) /\ ~(IsEndEvent(b, i) /\ b.n[i].proc = 0)}
  IN [enabled |-> Range(r.enabled) = TEnabled(b, m) /\ NoDup(r.enabled),
      only_enabled_execute |-> \A i \in DOMAIN b.n : r.refused[i] = ~CanRun(b, m, i),
      outcomes |-> \A i \in X : Range(r.exec[i]) = Exec(b, m, i),
      same_outcomes_of_try |-> \A i \in X : Range(r.try[i]) = Exec(b, m, i),
      marking_untouched |-> r.after = m]
Run(r) ==
  [initial |-> r.ms[1] = TInit(r.b),
   steps |-> \A j \in DOMAIN r.fired : r.ms[j + 1] \in Exec(r.b, r.ms[j], r.fired[j]),
   complete_runs_are_words_of_the_process |-> ~(r.done /\ r.tree # <<>>) \/ ProcAccepts(r.tree, r.word)]
Check(r) == CASE r.op = "at" -> At(r) [] r.op = "run" -> Run(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
