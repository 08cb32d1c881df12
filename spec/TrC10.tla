---- MODULE TrC10 ----
(* Conversions between process trees, nets, BPMN diagrams, POWL models and directly-follows graphs keep the visible language. *)
EXTENDS Models, Bpmn, Sound, Tk, Powl
VARIABLE l
\* a directly-follows graph as a net: the state is the last activity
DfgActs(d) == {d.df[i][1] : i \in DOMAIN d.df} \cup {d.df[i][2] : i \in DOMAIN d.df} \cup Range(d.starts) \cup Range(d.ends)
DfgNet(d) ==
  LET A == SetToSeqAny(DfgActs(d))
      n == Len(A) + 2
      Ix(a) == CHOOSE i \in DOMAIN A : A[i] = a
      V(i) == [p \in 1..n |-> IF p = i THEN 1 ELSE 0]
      T(lab, i, j) == [lab |-> lab, pre |-> V(i), post |-> V(j)]
  IN  [t |-> [k \in DOMAIN d.starts |-> T(d.starts[k], n - 1, Ix(d.starts[k]))]
             \o [k \in DOMAIN d.df |-> T(d.df[k][2], Ix(d.df[k][1]), Ix(d.df[k][2]))]
             \o [k \in DOMAIN d.ends |-> T("", Ix(d.ends[k]), n)],
       im |-> V(n - 1), fm |-> V(n)]
Mod(x) == CASE x.k = "net" -> NetModel(x.net)
            [] x.k = "proc" -> ProcModel(x.term)
            [] x.k = "bpmn" -> NetModel(BpmnNet(x.b))
            [] x.k = "dfg" -> NetModel(DfgNet(x.d))
Small(M) == M.k = "proc" \/ Bounded(M.net, 400)
Conv(r) ==
  LET A == Mod(r.src)
      B == Mod(r.dst)
  IN  [conversion_succeeds |-> r.ok \/ ~r.must,
       result_net_is_bounded |-> (r.ok /\ Small(A)) => (Small(B) \/ \A m \in Explore(B.net, 400)[1] : \A p \in DOMAIN m : m[p] <= 1),
       same_language |-> (r.ok /\ Small(A) /\ Small(B)) => SameLanguage(A, B, 500),
       same_activities |-> r.ok => (Small(A) /\ Small(B) => (r.loose \/ MSigma(A) = MSigma(B))),
       net_is_a_sound_workflow_net |-> (r.ok /\ r.wf) => SoundVerdict(r.dst.net, 400) \in {"sound", "unknown"},
       net_is_consistent |-> r.consistent,
       powl_is_well_formed |-> (r.ok /\ r.wfp) => WellFormed(r.dst.term),
       bpmn_is_well_formed |-> (r.ok /\ r.wfb) => BpmnWellFormed(r.dst.b)]
Check(r) == Conv(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
