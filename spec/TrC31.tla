---- MODULE TrC31 ----
\* C31: precision by escaping edges
EXTENDS Tk, Nets
VARIABLE l
SameSet(rep, exp) == NoDup(rep) /\ Range(rep) = exp
Prefixes(w) == UNION {{SubSeq(w[c], 1, k) : k \in 1..(Len(w[c]) - 1)} : c \in DOMAIN w}
Times(w, p) == Cardinality({c \in DOMAIN w : Len(w[c]) > Len(p) /\ SubSeq(w[c], 1, Len(p)) = p})
Next1(w, p) == {w[c][Len(p) + 1] : c \in {c \in DOMAIN w : Len(w[c]) > Len(p) /\ SubSeq(w[c], 1, Len(p)) = p}}
Vis(net, S, a) == {Fire(net.t[x[1]], x[2]) : x \in {y \in {i \in DOMAIN net.t : net.t[i].lab = a} \X S : Enabled(net.t[y[1]], y[2])}}
Tau(net, S) == {Fire(net.t[x[1]], x[2]) : x \in {y \in Silent(net) \X S : Enabled(net.t[y[1]], y[2])}}
\* rows of markings: entry i + 1 has the markings reached by the first i activities of w with exactly k silent steps
RECURSIVE Fill(_, _, _, _)
Fill(net, w, old, row) ==
  IF Len(row) = Len(w) + 1 THEN row
  ELSE LET i == Len(row) IN Fill(net, w, old, Append(row, Vis(net, row[i], w[i]) \cup Tau(net, old[i + 1])))
Row0(net, w) == Fill(net, w, [i \in 1..(Len(w) + 1) |-> {}], <<{net.im}>>)
NextRow(net, w, row) == Fill(net, w, row, <<Tau(net, row[1])>>)
RECURSIVE Cheapest(_, _, _)
Cheapest(net, w, row) == IF row[Len(w) + 1] # {} THEN row[Len(w) + 1] ELSE Cheapest(net, w, NextRow(net, w, row))
\* the markings in which the prefix ends, with as few silent steps as possible; none if it is not a prefix of a run
Stops(net, w) == IF NetRun(net, NetInit(net), w) = {} THEN {} ELSE Cheapest(net, w, Row0(net, w))
Allowed(net, S) == NetNext(net, TauClosure(net, S))
\* token replay passes over the activities that are not in the model
Known(net, p, token) == IF token THEN FilterSeq(p, LAMBDA a : a \in Labels(net)) ELSE p
Precision(net, w, token) ==
  LET P == Prefixes(w)
      St == [p \in P |-> Stops(net, Known(net, p, token))]
      Al == [p \in P |-> Allowed(net, St[p])]
      F == {p \in P : St[p] # {}}
      A0 == Allowed(net, {net.im})
      First == {w[c][1] : c \in DOMAIN w}
      at == Len(w) * Cardinality(A0) + SumFun([p \in F |-> Times(w, p) * Cardinality(Al[p])], F)
      ee == Len(w) * Cardinality(A0 \ First) + SumFun([p \in F |-> Times(w, p) * Cardinality(Al[p] \ Next1(w, p))], F)
  IN  IF at = 0 THEN <<1, 1>> ELSE <<at - ee, at>>
Prec(r) == [precision |-> \A i \in DOMAIN r.out : RatEq(r.out[i], Precision(r.net, r.w, r.token))]
\* the transitions eventually enabled by a marking
Ev(r) == [eventually_enabled |-> \A i \in DOMAIN r.ms : SameSet(r.out[i], {k \in DOMAIN r.net.t : r.net.t[k].lab # "" /\ \E m \in TauClosure(r.net, {r.ms[i]}) : Enabled(r.net.t[k], m)})]
Check(r) == CASE r.op = "prec" -> Prec(r) [] r.op = "ev" -> Ev(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
