---- MODULE TrC12 ----
(* Play-out of nets, trees and directly-follows graphs. *)
EXTENDS Models, Tk
VARIABLE l
\* words of length <= k whose subset state satisfies Acc
RECURSIVE WordsByFix(_, _, _, _, _, _)
WordsByFix(net, Acc(_), sig, k, front, acc) ==
  LET fin == {x[1] : x \in {y \in front : Acc(y[2])}}
  IN  IF k = 0 THEN acc \cup fin
      ELSE LET nx == {y \in {<<Append(x[1], a), NetStep(net, x[2], a)>> : x \in front, a \in sig} : y[2] # {}}
           IN  IF nx = {} THEN acc \cup fin ELSE WordsByFix(net, Acc, sig, k - 1, nx, acc \cup fin)
DeadWords(net, k) == LET Dead(S) == \E m \in S : EnabledSet(net, m) = {} IN WordsByFix(net, Dead, Labels(net), k, {<<<<>>, NetInit(net)>>}, {})
Mod(r) == IF r.m = "net" THEN NetModel(r.net) ELSE ProcModel(r.tree)
\* paths of a directly-follows graph in which no activity occurs more than occ times
RECURSIVE DfgWords(_, _, _, _)
DfgWords(d, occ, front, acc) ==
  IF front = {} THEN acc
  ELSE LET fin == {w \in front : w[Len(w)] \in Range(d.ends)}
           nx == {w2 \in {Append(w, a) : w \in front, a \in {d.df[i][2] : i \in DOMAIN d.df}} :
                    <<w2[Len(w2) - 1], w2[Len(w2)]>> \in Range(d.df) /\ Count(w2, w2[Len(w2)]) <= occ}
       IN  DfgWords(d, occ, nx, acc \cup fin)
\* an alternating sequence of markings and fired transitions
RunOf(net, ms, ts) ==
  /\ Len(ms) \in {Len(ts), Len(ts) + 1}
  /\ (Len(ms) > 0 => ms[1] = net.im)
  /\ \A i \in DOMAIN ts : Enabled(net.t[ts[i]], ms[i]) /\ (i < Len(ms) => ms[i + 1] = Fire(net.t[ts[i]], ms[i]))
\* a run to the final marking, its last marking left out
ElementsOf(net, ms, ts) ==
  /\ Len(ms) = Len(ts) /\ RunOf(net, ms, ts)
  /\ IF Len(ts) = 0 THEN net.im = net.fm ELSE Fire(net.t[ts[Len(ts)]], ms[Len(ms)]) = net.fm
\* an alternating sequence in a net with reset and inhibitor arcs, cut only by a deadlock, the final marking or the length
XRunOf(net, ms, ts, k) ==
  /\ Len(ms) \in {Len(ts), Len(ts) + 1} /\ Len(ts) <= k
  /\ (Len(ms) > 0 => ms[1] = net.im)
  /\ \A i \in DOMAIN ts : XEnabled(net.t[ts[i]], ms[i]) /\ (i < Len(ms) => ms[i + 1] = XFire(net.t[ts[i]], ms[i]))
  /\ Len(ms) = Len(ts) + 1 => LET m == ms[Len(ms)] IN m = net.fm \/ ~\E t \in DOMAIN net.t : XEnabled(net.t[t], m)
Leq(net, S) == \E m \in S : \A p \in DOMAIN m : m[p] >= net.fm[p]
\* paths of a weighted graph
Val(arcs, a, b) == SumFun([i \in DOMAIN arcs |-> IF arcs[i][1] = a /\ arcs[i][2] = b THEN arcs[i][3] ELSE 0], DOMAIN arcs)
Val1(S, a) == SumFun([i \in DOMAIN S |-> IF S[i][1] = a THEN S[i][2] ELSE 0], DOMAIN S)
OutFlow(r, a) == SumFun([i \in DOMAIN r.arcs |-> IF r.arcs[i][1] = a THEN r.arcs[i][3] ELSE 0], DOMAIN r.arcs) + Val1(r.ea, a)
RECURSIVE Num(_, _, _)
Num(r, w, i) == IF i = Len(w) THEN Val1(r.ea, w[i]) ELSE Val(r.arcs, w[i], w[i + 1]) * Num(r, w, i + 1)
RECURSIVE Den(_, _, _)
Den(r, w, i) == IF i > Len(w) THEN SumFun([j \in DOMAIN r.sa |-> r.sa[j][2]], DOMAIN r.sa) ELSE OutFlow(r, w[i]) * Den(r, w, i + 1)
Probs(r) == \A i \in DOMAIN r.pr : LET w == r.ws[r.pr[i][1]] IN r.pr[i][2] = Val1(r.sa, w[1]) * Num(r, w, 1) /\ r.pr[i][3] = Den(r, w, 1)
DfgAll(r) == DfgWords(r.d, r.occ, {<<a>> : a \in Range(r.d.starts)}, {})
Firsts(W) == {w[1] : w \in W}
Lasts(W) == {w[Len(w)] : w \in W}
Pairs(W) == UNION {{<<w[i], w[i + 1]>> : i \in 1..(Len(w) - 1)} : w \in W}
IsPath(d, w) == w # <<>> /\ w[1] \in Range(d.starts) /\ w[Len(w)] \in Range(d.ends) /\ \A i \in 1..(Len(w) - 1) : <<w[i], w[i + 1]>> \in Range(d.df)
Check(r) ==
  CASE r.op = "all" ->   \* extensive play-out
         [every_word_up_to_the_bound |-> {w \in Words(Mod(r), r.k) : Len(w) >= r.min} = Range(r.ws),
          each_word_once |-> NoDup(r.ws)]
    [] r.op = "dead" -> [every_maximal_word_up_to_the_bound |-> DeadWords(r.net, r.k) = Range(r.ws)]
    [] r.op = "some" -> [only_complete_runs |-> \A i \in DOMAIN r.ws : MAccepts(Mod(r), r.ws[i]),
                         requested_number_of_traces |-> r.n = Len(r.ws) \/ (r.atmost /\ Len(r.ws) <= r.n),
                         model_unchanged |-> r.same]
    [] r.op = "runs" -> [visited_elements_are_runs |-> \A i \in DOMAIN r.ms : RunOf(r.net, r.ms[i], r.ts[i])]
    [] r.op = "elements" -> LET W(i) == SelectSeq([j \in DOMAIN r.ts[i] |-> r.net.t[r.ts[i][j]].lab], LAMBDA q : q # "") IN
                            [elements_are_complete_runs_of_the_traces |-> Len(r.ms) = Len(r.ws) /\ \A i \in DOMAIN r.ms : ElementsOf(r.net, r.ms[i], r.ts[i]) /\ W(i) = r.ws[i]]
    [] r.op = "xruns" -> [visited_elements_are_runs_of_the_extended_net |-> \A i \in DOMAIN r.ms : XRunOf(r.net, r.ms[i], r.ts[i], r.k)]
    [] r.op = "leq" -> [only_runs_covering_the_final_marking |-> \A i \in DOMAIN r.ws : Leq(r.net, MRun(NetModel(r.net), NetInit(r.net), r.ws[i])),
                        at_most_the_requested_number |-> Len(r.ws) <= r.n, numbered_and_timed |-> r.ids]
    [] r.op = "perf" -> [only_paths_of_the_graph |-> \A i \in DOMAIN r.ws : IsPath(r.d, r.ws[i]),
                         requested_number_of_traces |-> Len(r.ws) = r.n,
                         numbered |-> r.ids = [i \in 1..r.n |-> ToString(i - 1)],
                         arrivals |-> \A i \in DOMAIN r.t : r.t[i][1] = i * r.rate,
                         time_passes_along_the_arcs |-> \A i \in DOMAIN r.t : \A j \in 1..(Len(r.t[i]) - 1) :
                            r.t[i][j + 1] >= r.t[i][j] /\ (<<r.ws[i][j], r.ws[i][j + 1]>> \in Range(r.zero) => r.t[i][j + 1] = r.t[i][j]),
                         model_unchanged |-> r.same]
    [] r.op = "dfgall" -> [every_path_of_the_graph |-> DfgAll(r) = Range(r.ws), each_path_once |-> NoDup(r.ws),
                           probabilities |-> Probs(r) /\ r.exact, most_probable_first |-> r.sorted, numbered_and_timed |-> r.ids]
    [] r.op = "dfglimit" -> LET A == DfgAll(r)
                                W == Range(r.ws)
                            IN  [only_paths_of_the_graph |-> W \subseteq A, each_path_once |-> NoDup(r.ws),
                                 as_many_paths_as_requested |-> Len(r.ws) = Min2(r.lim, Cardinality(A)),
                                 nothing_when_incomplete |-> r.part => Cardinality(A) <= r.lim,
                                 probabilities |-> Probs(r) /\ r.exact, most_probable_first |-> r.sorted, numbered_and_timed |-> r.ids]
    [] r.op = "dfgnone" -> [nothing_only_when_incomplete |-> Cardinality(DfgAll(r)) > r.lim]
    [] r.op = "dfgcover" -> LET A == DfgAll(r)
                                W == Range(r.ws)
                            IN  [only_paths_of_the_graph |-> W \subseteq A, each_path_once |-> NoDup(r.ws),
                                 covers_the_graph |-> Firsts(W) = Firsts(A) /\ Lasts(W) = Lasts(A) /\ Pairs(W) = Pairs(A),
                                 probabilities |-> Probs(r) /\ r.exact, most_probable_first |-> r.sorted, numbered_and_timed |-> r.ids]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
