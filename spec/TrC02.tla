---- MODULE TrC02 ----
(* The recorded reachability graph must be the state graph of the token game. *)
EXTENDS Tk, Nets
VARIABLE l
Check(r) ==
  LET R == Reach(r.net, r.net.im)
      E == UNION {{<<m, i, Fire(r.net.t[i], m)>> : i \in EnabledSet(r.net, m)} : m \in R}
  IN  [every_reachable_marking_is_a_state |-> R \subseteq Range(r.states),
       every_state_is_reachable |-> Range(r.states) \subseteq R,
       one_state_per_marking |-> Len(r.states) = Cardinality(Range(r.states)),
       every_firing_is_an_edge |-> E \subseteq Range(r.edges),
       every_edge_is_a_firing |-> Range(r.edges) \subseteq E,
       one_edge_per_firing |-> Len(r.edges) = Cardinality(Range(r.edges)),
       edges_registered_at_states |-> r.inc = Len(r.edges) /\ r.out = Len(r.edges),
       initial_marking_untouched |-> r.imsame]
\* visible transitions enabled after silent ones
Visible(net, m) == UNION {{i \in EnabledSet(net, x) : net.t[i].lab # ""} : x \in TauClosure(net, {m})}
Flow(r) ==
  LET R == Reach(r.net, r.net.im)
      E == UNION {{<<m, i, Fire(r.net.t[i], m)>> : i \in EnabledSet(r.net, m)} : m \in R}
  IN  [outgoing |-> Range(r.out) = E /\ NoDup(r.out) /\ Range(r.outm) = R,
       incoming |-> {<<x[1], Range(x[2])>> : x \in Range(r.inc)} = {<<m, {e[2] : e \in {f \in E : f[3] = m}}>> : m \in R},
       eventually_enabled |-> {<<x[1], Range(x[2])>> : x \in Range(r.ee)} = {<<m, Visible(r.net, m)>> : m \in R},
       initial_marking_untouched |-> r.imsame]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE IF Trace[l].op = "flow" THEN Flow(Trace[l]) ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
