---- MODULE TrC20 ----
(* The streaming discovery as a state machine (Stream!DfgStep), observed after prefixes; and against batch discovery. *)
EXTENDS Stream
VARIABLE l
Agrees(o, t) == /\ Exact(o.dfg, t.dfg) /\ Exact(o.acts, t.acts) /\ Exact(o.sa, t.sa) /\ Exact(o.ea, t.ea)
Check(r) ==
  CASE r.op = "stream" ->
         LET S[i \in 0 .. Len(r.steps)] == IF i = 0 THEN DfgInit ELSE DfgStep(S[i - 1], r.steps[i])
             T(k) == DfgTables(S[r.obs[k][1]])
         IN  [directly_follows_graph |-> \A k \in DOMAIN r.obs : Exact(r.obs[k][2].dfg, T(k).dfg),
              activities |-> \A k \in DOMAIN r.obs : Exact(r.obs[k][2].acts, T(k).acts),
              start_activities |-> \A k \in DOMAIN r.obs : Exact(r.obs[k][2].sa, T(k).sa),
              end_activities |-> \A k \in DOMAIN r.obs : Exact(r.obs[k][2].ea, T(k).ea)]
    [] r.op = "batch" ->
         LET B == BatchTables(r.steps)
         IN  [equals_batch_discovery |-> r.r.dfg = r.st.dfg /\ r.r.sa = r.st.sa /\ r.r.ea = r.st.ea,
              agrees_with_the_batch_definition |-> Agrees(r.st, B)]
    [] r.op = "static" -> [collected_stream_is_the_received_stream |-> r.same]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
