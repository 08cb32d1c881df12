---- MODULE TrC35 ----
\* Histories of analysis calls on shared inputs.  The state of the system is the content of the inputs; an analysis call
\* reads them and returns a value: it changes no input, and its value is the one it has on the inputs as first built,
\* whatever was called before.
EXTENDS Tk
VARIABLE l
Check(r) ==
  [inputs_unchanged |-> \A k \in DOMAIN r.first : r.after[k] = r.first[k],
   answers |-> r.raised = "",
   nothing_forgotten |-> DOMAIN r.after = DOMAIN r.first,
   independent_of_history |-> r.result = r.fresh]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
