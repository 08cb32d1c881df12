---- MODULE TrC30 ----
\* C30: prefix tree and transition system of a log
EXTENDS Logs
VARIABLE l
Prefixes(w) == UNION {{SubSeq(w[c], 1, k) : k \in 0..Len(w[c])} : c \in DOMAIN w}
Tree(r) ==
  LET P == {n[1] : n \in Range(r.nodes)}
  IN  [prefixes |-> NoDup([i \in DOMAIN r.nodes |-> r.nodes[i][1]]) /\ P = Prefixes(r.w),
       ends |-> \A n \in Range(r.nodes) : n[2] = (\E c \in DOMAIN r.w : r.w[c] = n[1]),
       depth |-> \A n \in Range(r.nodes) : n[3] = Len(n[1])]
\* the state of a case after i events: the window of activities after (before) this point, abstracted
Window(w, i, k, dir) == IF dir = "forward" THEN SubSeq(w, i + 1, Min2(Len(w), i + k)) ELSE SubSeq(w, Max2(1, i - k + 1), i)
Abstract(s, view) ==
  CASE view = "sequence" -> s
    [] view = "set" -> Range(s)
    [] view = "multiset" -> {<<a, Cardinality({i \in DOMAIN s : s[i] = a})>> : a \in Range(s)}
\* a recorded state: a sequence of activities or of activities with counts, in any order for sets
Name(n, view) == IF view = "sequence" THEN n ELSE Range(n)
System(r) ==
  LET St(c, i) == Abstract(Window(r.w[c], i, r.k, r.dir), r.view)
      Steps == UNION {{<<c, i>> : i \in 1..Len(r.w[c])} : c \in DOMAIN r.w}
      Edge(p) == <<St(p[1], p[2] - 1), r.w[p[1]][p[2]], St(p[1], p[2])>>
      E == {Edge(p) : p \in Steps}
      S == {e[1] : e \in E} \cup {e[3] : e \in E}
      RS == [i \in DOMAIN r.states |-> Name(r.states[i][1], r.view)]
      RE == [i \in DOMAIN r.edges |-> <<RS[r.edges[i][1]], r.edges[i][2], RS[r.edges[i][3]]>>]
      Ev(Q) == {p \in Steps : Q[p]}
  IN  [states |-> Exact(RS, S),
       transitions |-> Exact(RE, E),
       incidence |-> \A i \in DOMAIN r.states : r.states[i][2] = Cardinality({j \in DOMAIN r.edges : r.edges[j][3] = i}) /\ r.states[i][3] = Cardinality({j \in DOMAIN r.edges : r.edges[j][1] = i}),
       events |-> r.data => /\ \A j \in DOMAIN r.edges : SameBag(r.edges[j][4], SetToSeqAny({p \in Steps : Edge(p) = RE[j]}))
                            /\ \A i \in DOMAIN r.states : /\ SameBag(r.states[i][4], SetToSeqAny({p \in Steps : Edge(p)[3] = RS[i]}))
                                                          /\ SameBag(r.states[i][5], SetToSeqAny({p \in Steps : Edge(p)[1] = RS[i]}))]
Check(r) == CASE r.op = "tree" -> Tree(r) [] r.op = "ts" -> System(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
