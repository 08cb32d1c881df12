---- MODULE TrC19 ----
\* The three representations of a log and the functions between them.
\*   log:            sequence of [at: case attributes, ev: sequence of attribute lists]
\*   stream / table: sequence of rows [c: case attributes, e: event attributes]
EXTENDS Tk
VARIABLE l
S(x) == Range(x)
\* rows as sets, so that the order of the attributes does not matter
RowsN(R) == [i \in DOMAIN R |-> [c |-> S(R[i].c), e |-> S(R[i].e)]]
LogN(L) == [i \in DOMAIN L |-> [at |-> S(L[i].at), ev |-> [j \in DOMAIN L[i].ev |-> S(L[i].ev[j])]]]
StreamOf(L) == Flatten([i \in DOMAIN L |-> [j \in DOMAIN L[i].ev |-> [c |-> L[i].at, e |-> L[i].ev[j]]]])
Glue(row, key) == (CHOOSE p \in (IF key = "" THEN row.c ELSE row.e) : p[1] = (IF key = "" THEN "concept:name" ELSE key))[2]
RECURSIVE Order(_, _, _, _)
Order(R, key, i, acc) == IF i > Len(R) THEN acc
                         ELSE LET g == Glue(R[i], key) IN Order(R, key, i + 1, IF g \in Range(acc) THEN acc ELSE Append(acc, g))
LogOf(R, key) ==
  LET G == Order(R, key, 1, <<>>)
      J(g) == SortedSeq({i \in DOMAIN R : Glue(R[i], key) = g})
      At(row, g) == IF \E p \in row.c : p[1] = "concept:name" THEN row.c ELSE row.c \cup {<<"concept:name", g>>}
  IN  [k \in DOMAIN G |-> LET I == J(G[k]) IN [at |-> At(R[I[1]], G[k]), ev |-> [j \in DOMAIN I |-> R[I[j]].e]]]
Step(r) == IF r.f = "log" THEN StreamOf(LogN(r.a))
           ELSE IF r.g = "log" THEN LogOf(RowsN(r.a), "") ELSE RowsN(r.a)
After(r) == IF r.g = "log" THEN LogN(r.b) ELSE RowsN(r.b)
\* formatting a table: incomplete rows dropped, sorted by case, time and position
Main(r) == FilterSeq(r.src, LAMBDA x : x.c # "" /\ x.a # "" /\ x.t # -1)
Rank(r, c) == CHOOSE k \in DOMAIN r.sorted : r.sorted[k] = c
Less(r, x, y) == \/ Rank(r, x.c) < Rank(r, y.c)
                 \/ x.c = y.c /\ x.t < y.t
                 \/ x.c = y.c /\ x.t = y.t /\ x.id < y.id
\* the graph of a log
CaseN(k) == <<"c", k, 0>>
EvN(k, j) == <<"e", k, j>>
Vals(A, names) == {<<p[1], p[2]>> : p \in {q \in A : q[1] \in names}}
NxNodes(r, L) == {<<CaseN(k), L[k].at, "CASE">> : k \in DOMAIN L}
   \cup UNION {{<<EvN(k, j), L[k].ev[j], "EVENT">> : j \in DOMAIN L[k].ev} : k \in DOMAIN L}
   \cup UNION {{<<<<"v", p[2], 0>>, {}, "ATTRIBUTE_NODE">> : p \in Vals(L[k].at, S(r.ca))} : k \in DOMAIN L}
   \cup UNION {UNION {{<<<<"v", p[2], 0>>, {}, "ATTRIBUTE_NODE">> : p \in Vals(L[k].ev[j], S(r.ea))} : j \in DOMAIN L[k].ev} : k \in DOMAIN L}
NxEdges(r, L) == UNION {{<<EvN(k, j), CaseN(k), "BELONGS_TO", "">> : j \in DOMAIN L[k].ev} : k \in DOMAIN L}
   \cup (IF r.df THEN UNION {{<<EvN(k, j), EvN(k, j + 1), "DF", "">> : j \in 1..(Len(L[k].ev) - 1)} : k \in DOMAIN L} ELSE {})
   \cup UNION {{<<CaseN(k), <<"v", p[2], 0>>, "ATTRIBUTE_EDGE", p[1]>> : p \in Vals(L[k].at, S(r.ca))} : k \in DOMAIN L}
   \cup UNION {UNION {{<<EvN(k, j), <<"v", p[2], 0>>, "ATTRIBUTE_EDGE", p[1]>> : p \in Vals(L[k].ev[j], S(r.ea))} : j \in DOMAIN L[k].ev} : k \in DOMAIN L}
\* one edge per pair of nodes (the graph is simple): two attributes with the same value share it
EP(E) == {<<e[1], e[2], e[3]>> : e \in E}
\* the effect of the importer's options: the first cases only; events, then cases, sorted by time (stable, empty cases left out)
Sorted(t, rev) == [k \in DOMAIN t |-> CHOOSE i \in DOMAIN t : k = 1 + Cardinality({j \in DOMAIN t : (IF rev THEN t[j] > t[i] ELSE t[j] < t[i]) \/ (t[j] = t[i] /\ j < i)})]
Options(r) ==
  LET n == IF r.max = 0 THEN Len(r.a) ELSE Min2(r.max, Len(r.a))
      A == SubSeq(r.a, 1, n)
      T == SubSeq(r.t, 1, n)
      I == FilterSeq([i \in 1..n |-> i], LAMBDA i : T[i] # <<>>)
      ord(i) == Sorted(T[i], r.sort = 2)
      J == Sorted([k \in DOMAIN I |-> T[I[k]][ord(I[k])[1]]], r.sort = 2)
  IN  IF r.sort = 0 THEN A
      ELSE [k \in DOMAIN I |-> LET i == I[J[k]] IN [at |-> A[i].at, ev |-> [j \in DOMAIN T[i] |-> A[i].ev[ord(i)[j]]]]]
Check(r) ==
  CASE r.op = "step" ->
    [representation |-> r.g = r.want,
     nothing_lost   |-> After(r) = Step(r),
     log_level_kept |-> r.samemeta,
     no_missing_values_after_cleaning |-> r.nan = 0]
  [] r.op = "xes" ->
    LET a == Options(r) IN
    [cases_kept  |-> [i \in DOMAIN a |-> S(a[i].at)] = [i \in DOMAIN r.b |-> S(r.b[i].at)],
     events_kept |-> [i \in DOMAIN a |-> [j \in DOMAIN a[i].ev |-> S(a[i].ev[j])]] = [i \in DOMAIN r.b |-> [j \in DOMAIN r.b[i].ev |-> S(r.b[i].ev[j])]],
     log_attributes_kept |-> r.full => S(r.ma.at) = S(r.mb.at),
     classifiers_kept |-> r.full => S(r.ma.cl) = S(r.mb.cl),
     extensions_kept |-> r.full => S(r.ma.ex) = S(r.mb.ex),
     globals_kept |-> r.full => {<<x[1], S(x[2])>> : x \in S(r.ma.om)} = {<<x[1], S(x[2])>> : x \in S(r.mb.om)}]
  [] r.op = "xesdf" -> [rows_kept |-> RowsN(r.b) = StreamOf(LogOf(RowsN(r.a), r.key))]
  [] r.op = "fmt" ->
    [complete_rows_kept |-> {[c |-> x.c, a |-> x.a, t |-> x.t, s |-> x.s, id |-> x.id] : x \in Range(r.out)} = Range(Main(r)) /\ Len(r.out) = Len(Main(r)),
     sorted             |-> \A i \in 1..(Len(r.out) - 1) : Less(r, r.out[i], r.out[i + 1]),
     indexed            |-> \A i \in DOMAIN r.out : /\ r.out[i].ix = i - 1
                                                    /\ r.out[i].cx = Cardinality({r.out[j].c : j \in 1..i}) - 1,
     properties_set     |-> r.props]
  [] r.op = "nx" ->
    LET L == LogN(r.a)
    IN  [nodes |-> {<<n[1], S(n[2]), n[3]>> : n \in S(r.nodes)} = NxNodes(r, L),
         \* the graph holds the whole log (the way back sorts by time, and sorting leaves out traces without events)
         back  |-> r.hasback => LET B(x)  == <<S(x.at), Len(x.ev), {S(x.ev[i]) : i \in DOMAIN x.ev}>>
                                    full  == {i \in DOMAIN r.a : r.a[i].ev # <<>>}
                                IN  {B(r.back[i]) : i \in DOMAIN r.back} = {B(r.a[i]) : i \in full} /\ Len(r.back) = Cardinality(full),
         edges |-> EP(S(r.edges)) = EP(NxEdges(r, L)) /\ S(r.edges) \subseteq NxEdges(r, L)]
  [] r.op = "parse" ->
    [one_event_per_activity |-> r.out = Flatten([k \in DOMAIN r.w |-> [j \in DOMAIN r.w[k] |-> <<k - 1, r.w[k][j]>>]]),
     increasing_times       |-> r.inc]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
