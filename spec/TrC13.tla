---- MODULE TrC13 ----
(* Model files: x is the model written, y the model read back.  A model is a    *)
(* record of bags (places, transitions, arcs, markings, annotations ... ) of    *)
(* tuples of strings, and a file keeps every one of them.                       *)
EXTENDS Tk
VARIABLE l
Keeps(r, f) == f \in DOMAIN r.y /\ SameBag(r.x[f], r.y[f])
Wanted(r) == CASE r.kind = "net" -> {"places", "transitions", "arcs", "im", "fm", "stoch", "guards", "reads", "writes", "variables", "layout"}
               [] r.kind = "dfg" -> {"df", "sa", "ea"}
               [] r.kind = "bpmn" -> {"nodes", "flows", "outs", "ins"}
Check(r) ==
  [f \in DOMAIN r.x \cup {"spec_fields"} |-> IF f = "spec_fields" THEN Wanted(r) \subseteq DOMAIN r.x ELSE Keeps(r, f)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
