---- MODULE TrC29 ----
\* C29: the alpha miner and the alpha+ miner return the net of their definitions
\* a net is recorded as its places <<labels before, labels after, marked initially, marked finally>> (as sequences) and its labels
EXTENDS Alpha
VARIABLE l
Place(p) == <<Range(p[1]), Range(p[2]), p[3], p[4]>>
Simple(r) == \A i \in DOMAIN r.places : NoDup(r.places[i][1]) /\ NoDup(r.places[i][2])
Places(r) == {Place(r.places[i]) : i \in DOMAIN r.places}
Inner(Y) == {<<p[1], p[2], 0, 0>> : p \in Y}
Classic(r) ==
  LET D == IF r.w = <<>> THEN {<<x[1], x[2]>> : x \in Range(r.dfg)} ELSE Follows(r.w)
      T == IF r.w = <<>> THEN {x[1] : x \in D} \cup {x[2] : x \in D} ELSE Acts(r.w)
      S == IF r.w = <<>> THEN {a \in T : ~ \E x \in D : x[2] = a} ELSE {x[1] : x \in Starts(r.w)}
      E == IF r.w = <<>> THEN {a \in T : ~ \E x \in D : x[1] = a} ELSE {x[1] : x \in Ends(r.w)}
  IN  [labels |-> Exact(r.labels, T),
       places |-> Simple(r) /\ Len(r.places) = Cardinality(Places(r))
                  /\ Places(r) = Inner(Maximal(Pairs(T, D, Causal(D)))) \cup {<<{}, S, 1, 0>>, <<E, {}, 0, 1>>}]
\* alpha+: artificial start and end around every case, length-one loops removed and attached afterwards
Plus(r) ==
  LET Wrap(w) == <<"[">> \o w \o <<"]">>
      W == [i \in DOMAIN r.w |-> Wrap(r.w[i])]
      L1 == LoopOne(W)
      V == [i \in DOMAIN W |-> FilterSeq(W[i], LAMBDA a : a \notin L1)]
      D == Follows(V)
      T == Acts(V)
      Y == Maximal(Pairs(T, D, CausalPlus(V)))
      A(t) == {x[1] : x \in {y \in Dfg(W) : y[2] = t}} \ L1
      B(t) == {x[2] : x \in {y \in Dfg(W) : y[1] = t}} \ L1
      At(t) == {p \in Y : A(t) # {} /\ B(t) # {} /\ A(t) \ B(t) \subseteq p[1] /\ B(t) \ A(t) \subseteq p[2]}
      Loops(p) == {t \in L1 : p \in At(t)}
      P0 == {<<p[1] \cup Loops(p), p[2] \cup Loops(p), 0, 0>> : p \in Y}
      Pre == {<<{}, {"["}, 1, 0>>}
      Post == {<<{"]"}, {}, 0, 1>>}
      \* the artificial start can be left out if all it does is to mark one place that nothing else marks
      OutOf(a) == {p \in P0 : a \in p[1]}
      Into(a) == {p \in P0 : a \in p[2]}
      DropS == \E p \in P0 : OutOf("[") = {p} /\ p[1] = {"["}
      P1 == IF DropS THEN {IF "[" \in p[1] THEN <<{}, p[2], 1, 0>> ELSE p : p \in P0} ELSE P0 \cup Pre
      \* the artificial end can be left out if it takes from one place only, which nothing else takes from, and the producers of which do nothing else
      Q1 == {p \in P1 : "]" \in p[2]}
      DropE == \E p \in P1 : Q1 = {p} /\ p[1] # {} /\ p[2] = {"]"} /\ \A a \in p[1] : Cardinality({q \in P1 : a \in q[1]}) = 1
      P2 == IF DropE THEN (P1 \ Q1) \cup {<<UNION {p[1] : p \in Q1}, {}, 0, 1>>} ELSE P1 \cup Post
      Hidden == (IF DropS THEN {} ELSE {"["}) \cup (IF DropE THEN {} ELSE {"]"})
  IN  [labels |-> Exact(r.labels, Acts(r.w) \cup Hidden),
       places |-> Simple(r) /\ Len(r.places) = Cardinality(Places(r)) /\ Places(r) = P2]
Check(r) == CASE r.op = "classic" -> Classic(r) [] r.op = "plus" -> Plus(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
