---- MODULE TrC25 ----
\* C25: reading back a written object-centric log. What a format can hold is explicit: the qualifiers, the object-object
\* relations and the object changes are dropped by some formats; everything else must come back.
EXTENDS Ocel
VARIABLE l
HasQual(fmt) == fmt \in {"json", "sqlite", "json2", "xml2", "sqlite2", "nx"}
HasO20(fmt, L) == fmt \in {"json2", "xml2", "sqlite2", "nx"} \/ (fmt = "json" /\ L.is20)
QualKept(fmt, L) == IF fmt = "json" THEN L.is20 ELSE HasQual(fmt)
Rel(fmt, L, S) == MapSeq(S, LAMBDA x : IF QualKept(fmt, L) THEN x ELSE [x EXCEPT !.q = ""])
\* rows as bags; tables in time order
TimeOrder(S) == \A i \in 1 .. Len(S) - 1 : S[i].t <= S[i + 1].t
Check(r) ==
  LET L == r.w  X == r.out  f == r.fmt IN
  CASE r.op = "io" ->
    [events     |-> SameBag(X.ev, L.ev),
     objects    |-> SameBag(X.ob, L.ob),
     relations  |-> SameBag(X.rel, Rel(f, L, L.rel)),
     links      |-> SameBag(X.o2o, IF HasO20(f, L) THEN L.o2o ELSE <<>>),
     changes    |-> SameBag(X.oc, IF HasO20(f, L) THEN L.oc ELSE <<>>),
     time_order |-> TimeOrder(X.ev) /\ TimeOrder(X.rel),
     \* rows of the same instant keep their order where the format writes the events in one sequence
     order      |-> f = "sqlite2" \/ [i \in DOMAIN X.ev |-> X.ev[i].id] = [i \in DOMAIN L.ev |-> L.ev[i].id],
     spec_input |-> Consistent(L)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
