---- MODULE TrC49 ----
\* C49: ev: the events [a, r, s, t, c, i] (i = 0 without event numbers); got: [a, r, n, b] with b: [k, s, t, e]
EXTENDS Batches
VARIABLE l
Core(x) == [s |-> x.s, t |-> x.t, c |-> x.c, i |-> x.i]
Combos(r) == {<<x.a, x.r>> : x \in Range(r.ev)}
Of(r, p) == {Core(x) : x \in {y \in Range(r.ev) : <<y.a, y.r>> = p}}
Want(r, p) == {g \in Groups(Of(r, p), r.d) : Cardinality(g) >= r.min}
Check(r) ==
  LET exp == [p \in Combos(r) |-> Want(r, p)]
      some == {p \in Combos(r) : exp[p] # {}}
  IN  [combinations |-> NoDup([i \in DOMAIN r.got |-> <<r.got[i].a, r.got[i].r>>]) /\ {<<x.a, x.r>> : x \in Range(r.got)} = some,
       batches |-> \A x \in Range(r.got) : <<x.a, x.r>> \in some => NoDup(x.b) /\ {Range(b.e) : b \in Range(x.b)} = exp[<<x.a, x.r>>] /\ \A b \in Range(x.b) : NoDup(b.e),
       extent |-> \A x \in Range(r.got) : \A b \in Range(x.b) : Hull(Range(b.e)) = [s |-> b.s, t |-> b.t],
       kinds |-> \A x \in Range(r.got) : \A b \in Range(x.b) : b.k = Kind(Range(b.e)),
       counts |-> \A x \in Range(r.got) : x.n = Len(x.b),
       most_first |-> \A i \in 1..(Len(r.got) - 1) : r.got[i].n >= r.got[i + 1].n]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
