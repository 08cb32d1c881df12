---- MODULE TrC46 ----
(* POWL discovery: fitness, alphabet, strict partial orders, rediscovery of a partially ordered process. *)
EXTENDS Fprint, Powl
VARIABLE l
Mine(r) ==
  LET T == ProcModel(r.powl)
      acts == LogActs(r.ws)
  IN  [model_replays_every_trace |-> r.exact => \A i \in DOMAIN r.ws : MAccepts(T, r.ws[i]),
       net_replays_every_trace |-> r.exact => \A i \in DOMAIN r.ws : MAccepts(NetModel(r.net), r.ws[i]),
       only_activities_of_the_log |-> Alphabet(r.powl) \subseteq acts /\ Labels(r.net) \subseteq acts,
       all_activities_when_noise_free |-> r.exact => acts \subseteq Alphabet(r.powl),
       orders_are_strict_partial_orders |-> WellFormed(r.powl),
       one_trace_when_everything_is_filtered |-> (r.single # <<>>) => MAccepts(T, r.single)]
\* eventually-follows pairs of a log and of a partial order over distinct activities
Ef(ws) == UNION {{<<ws[c][i], ws[c][j]>> : <<i, j>> \in {<<i, j>> \in (1..Len(ws[c])) \X (1..Len(ws[c])) : i < j}} : c \in DOMAIN ws}
Redis(r) ==
  LET O == ProcModel(r.orig)
      P == ProcFp(r.orig)
      Below(a, b) == <<a, b>> \in Ef(r.ws) /\ <<b, a>> \notin Ef(r.ws)
      plain == \A i \in DOMAIN r.orig[2][1] : r.orig[2][1][i][1] = "act"
      complete == /\ plain /\ LogDf(r.ws) = P.df /\ LogStarts(r.ws) = P.starts /\ LogEnds(r.ws) = P.ends
                  /\ \A i \in DOMAIN r.ws : MAccepts(O, r.ws[i])
                  /\ \A a, b \in P.acts : a = b \/ <<a, b>> \in Ef(r.ws) \/ Below(b, a)
      \* the log has every word of the process (which has no loop)
      all == Range(r.ws) = Words(O, 10)
  IN  [rediscovers_the_partial_order |-> (complete \/ all) => SameLanguage(O, ProcModel(r.powl), 400),
       still_fitting |-> \A i \in DOMAIN r.ws : MAccepts(ProcModel(r.powl), r.ws[i]),
       orders_are_strict_partial_orders |-> WellFormed(r.powl)]
Check(r) == CASE r.op = "mine" -> Mine(r) [] r.op = "redis" -> Redis(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
