---- MODULE TrC51 ----
\* C51: ws: the words of the log; got: <<word, count>> of the result; near: no noise
EXTENDS Anonym
VARIABLE l
Check(r) ==
  LET G == Range(r.got)
      W == IF r.v = "laplace" THEN Plain(r.ws, r.p, r.k) ELSE Semantic(r.ws, r.p, r.k)
      M == IF r.v = "laplace" THEN r.k - 1 ELSE r.k
  IN  [length |-> \A x \in G : Len(x[1]) <= M, alphabet |-> \A x \in G : Range(x[1]) \subseteq Acts(r.ws),
       frequent_enough |-> r.v = "laplace" => \A x \in G : x[2] >= r.p,
       counts_without_noise |-> r.near => {<<x[1], x[2]>> : x \in G} = W,
       cases |-> r.cases /\ r.kept]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
