---- MODULE TrC36 ----
(* Readers that hand out a source piece by piece: exactly its events/traces, in order. *)
EXTENDS Tk
VARIABLE l
Names(S) == {p[1] : p \in S}
Check(r) ==
  CASE r.op = "events" ->
         LET E == Flatten([i \in DOMAIN r.a |-> [j \in DOMAIN r.a[i].ev |->
                    [e |-> Range(r.a[i].ev[j]), c |-> {<<"case:" \o p[1], p[2]>> : p \in Range(r.a[i].at)}]]])
             K == IF r.acc = "" THEN E ELSE SelectSeq(E, LAMBDA x : r.acc \in Names(x.e))
             \* names with odd characters are recorded as hashes, with or without the prefix
             Nm(S) == {p[2] : p \in S}
         IN  [as_many_events |-> Len(r.out) = Len(K),
              events_in_order_with_their_attributes |-> Len(r.out) = Len(K) => \A i \in DOMAIN K : K[i].e \subseteq Range(r.out[i]),
              attributes_of_the_case_are_added |-> Len(r.out) = Len(K) => \A i \in DOMAIN K :
                  \A p \in K[i].c : p \in Range(r.out[i]) \/ (\E q \in Range(r.out[i]) \ K[i].e : q[2] = p[2] /\ q[1] \notin Names(K[i].c)),
              nothing_else |-> Len(r.out) = Len(K) => \A i \in DOMAIN K : Cardinality(Range(r.out[i])) = Cardinality(K[i].e) + Cardinality(K[i].c)]
    [] r.op = "traces" ->
         LET N(t) == [at |-> Range(t.at), ev |-> [j \in DOMAIN t.ev |-> Range(t.ev[j])]]
             K == IF r.acc = "" THEN r.a ELSE SelectSeq(r.a, LAMBDA t : \E j \in DOMAIN t.ev : r.acc \in Names(Range(t.ev[j])))
         IN  [traces_in_order |-> [i \in DOMAIN K |-> N(K[i])] = [i \in DOMAIN r.out |-> N(r.out[i])]]
    [] r.op = "csv" ->
         LET K == IF r.acc THEN SelectSeq(r.rows, LAMBDA x : x[1] \notin Range(r.no)) ELSE r.rows
         IN  [rows_in_order |-> r.out = [i \in DOMAIN K |-> [j \in DOMAIN r.cols |-> <<r.cols[j], K[i][j]>>]]]
    [] r.op = "df" ->
         LET Cs == {r.rows[i][1] : i \in DOMAIN r.rows}
             I(c) == {i \in DOMAIN r.rows : r.rows[i][1] = c}
             Less(i, j) == r.rows[i][3] < r.rows[j][3] \/ (r.rows[i][3] = r.rows[j][3] /\ i < j)
             Evs(c) == LET s == SortSeq(SetToSeqAny(I(c)), Less) IN [k \in DOMAIN s |-> <<r.rows[s[k]][2], r.rows[s[k]][3]>>]
         IN  [one_trace_per_case |-> {r.out[i][1] : i \in DOMAIN r.out} = Cs /\ Len(r.out) = Cardinality(Cs),
              events_of_the_case_in_time_order |-> \A i \in DOMAIN r.out : r.out[i][1] \in Cs => r.out[i][2] = Evs(r.out[i][1]),
              dataframe_is_not_changed |-> r.same]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
