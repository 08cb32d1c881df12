---- MODULE TrC04 ----
(* Reductions: the net before and the net after must have the same visible runs. *)
EXTENDS Tk, Models
VARIABLE l
Vis(net) == [a \in Labels(net) |-> Cardinality({i \in DOMAIN net.t : net.t[i].lab = a})]
\* nets with reset and inhibitor arcs, cut at 150 markings
XCheck(r) ==
  LET b == XBounded(r.net, 150)
      c == ~ b \/ XBounded(r.after, 400)
  IN  [stays_bounded |-> c,
       same_visible_runs |-> b /\ c => SameLanguage(XNetModel(r.net), XNetModel(r.after), 300),
       visible_transitions_kept |-> Vis(r.net) = Vis(r.after),
       never_larger |-> Len(r.after.t) <= Len(r.net.t) /\ Len(r.after.im) <= Len(r.net.im),
       net_well_formed |-> r.ok]
Check(r) == IF r.op = "xreduce" THEN XCheck(r) ELSE
  LET b == Bounded(r.after, 2 * Cardinality(Reach(r.net, r.net.im)) + 10) IN
  [stays_bounded |-> b,
   same_visible_runs |-> b => SameLanguage(NetModel(r.net), NetModel(r.after), 300),
   visible_transitions_kept |-> Vis(r.net) = Vis(r.after),
   never_larger |-> Len(r.after.t) <= Len(r.net.t) /\ Len(r.after.im) <= Len(r.net.im),
   places_kept_when_only_silent_removed |-> (r.how = "imp") => Len(r.after.t) = Len(r.net.t),
   net_well_formed |-> r.ok]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
