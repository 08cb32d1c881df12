---- MODULE TrC09 ----
(* Inductive miner: fitness, alphabet, soundness, and rediscovery of the process. *)
EXTENDS Fprint, Sound
VARIABLE l
Mine(r) ==
  LET T == ProcModel(r.tree)
      N == NetModel(r.net)
      acts == UNION {Range(r.ws[i]) : i \in DOMAIN r.ws}
      v == SoundVerdict(r.net, 300)
  IN  [tree_replays_every_trace |-> r.exact => \A i \in DOMAIN r.ws : MAccepts(T, r.ws[i]),
       net_replays_every_trace |-> r.exact => \A i \in DOMAIN r.ws : MAccepts(N, r.ws[i]),
       only_activities_of_the_log |-> Alphabet(r.tree) \subseteq acts /\ Labels(r.net) \subseteq acts,
       all_activities_when_noise_free |-> r.exact => acts \subseteq Alphabet(r.tree),
       net_is_a_sound_workflow_net |-> v \in {"sound", "unknown"},
       bpmn_replays_every_trace |-> (r.exact /\ r.hasbpmn) => \A i \in DOMAIN r.ws : MAccepts(NetModel(r.bnet), r.ws[i])]
Dfg(r) ==
  LET P == ProcFp(r.tree)
      D == {<<p[1], p[2]>> : p \in Range(r.dfg)}
  IN  [dfg_tree_replays_every_pair |-> D \subseteq P.df,
       dfg_tree_replays_start_and_end_activities |-> Range(r.starts) \subseteq P.starts /\ Range(r.ends) \subseteq P.ends,
       dfg_tree_has_the_activities |-> P.acts = Range(r.starts) \cup Range(r.ends) \cup {p[1] : p \in D} \cup {p[2] : p \in D}]
\* class of processes the miner rediscovers: every activity once, no silent leaf, loop bodies that start and end with different activities
RECURSIVE InClass(_)
InClass(t) ==
  CASE t[1] = "act" -> TRUE
    [] t[1] = "tau" -> FALSE
    [] OTHER -> /\ \A i \in DOMAIN t[2] : InClass(t[2][i])
                /\ \A i, j \in DOMAIN t[2] : i # j => Alphabet(t[2][i]) \cap Alphabet(t[2][j]) = {}
                /\ (t[1] = "loop" => LET F == ProcFp(t[2][1]) IN F.starts \cap F.ends = {})
Redis(r) ==
  LET P == ProcFp(r.orig)
      complete == LogDf(r.ws) = P.df /\ LogStarts(r.ws) = P.starts /\ LogEnds(r.ws) = P.ends
  IN  [rediscovers_the_process |-> (InClass(r.orig) /\ complete) => SameLanguage(ProcModel(r.orig), ProcModel(r.tree), 400),
       still_fitting |-> \A i \in DOMAIN r.ws : MAccepts(ProcModel(r.tree), r.ws[i])]
Check(r) == CASE r.op = "mine" -> Mine(r) [] r.op = "dfg" -> Dfg(r) [] r.op = "redis" -> Redis(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
