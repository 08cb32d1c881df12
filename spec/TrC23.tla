---- MODULE TrC23 ----
\* Object-centric filters: the selected events/objects are exactly those satisfying the condition, and the other tables follow.
EXTENDS Ocel
VARIABLE l
Has2(vals, x) == x \in Range(vals)
EvVal(x, k) == CASE k = "activity" -> x.a [] k = "id" -> x.id [] OTHER -> AttrOf(x, k)
ObVal(x, k) == CASE k = "type" -> x.ty [] k = "id" -> x.id [] OTHER -> AttrOf(x, k)
Sel(S, C(_), pos) == {x.id : x \in {y \in Range(S) : C(y) = pos}}
Unite(S) == UNION S
Expected(r) ==
  LET L == r.w
      OfTy(T) == {o.id : o \in {x \in Range(L.ob) : x.ty \in T}}
      Sgn(O) == IF r.pos THEN O ELSE ObIds(L) \ O
  IN  CASE r.f = "ev_attr"  -> ByEvents(L, Sel(L.ev, LAMBDA x : Has2(r.vals, EvVal(x, r.key)), r.pos))
        [] r.f = "ob_attr"  -> ByObjects(L, Sel(L.ob, LAMBDA x : Has2(r.vals, ObVal(x, r.key)), r.pos))
        [] r.f = "events"   -> ByEvents(L, IF r.pos THEN Range(r.vals) ELSE EvIds(L) \ Range(r.vals))
        [] r.f = "objects"  -> ByObjects(L, Sgn(Expand(L, Range(r.vals), r.level - 1)))
        [] r.f = "types"    -> ByObjects(L, Sgn(Expand(L, OfTy(Range(r.vals)), r.level - 1)))
        [] r.f = "allowed"  -> ByRelations(L, LAMBDA x : \E i \in DOMAIN r.vals : r.vals[i][1] = x.ty /\ x.a \in Range(r.vals[i][2]))
        [] r.f = "count"    -> ByEvents(L, {e \in EvIds(L) : \A i \in DOMAIN r.vals : Cardinality({j \in DOMAIN L.rel : L.rel[j].e = e /\ L.rel[j].ty = r.vals[i][1]}) >= r.vals[i][2]})
        [] r.f = "start"    -> ByEvents(L, {Life(L, o)[1] : o \in OfTy({r.vals[1]}) \cap RelOb(L)})
        [] r.f = "end"      -> ByEvents(L, {Life(L, o)[Len(Life(L, o))] : o \in OfTy({r.vals[1]}) \cap RelOb(L)})
        [] r.f = "time"     -> ByEvents(L, {x.id : x \in {y \in Range(L.ev) : r.lo <= y.t /\ y.t <= r.hi}})
        [] r.f = "cc_object" -> ByObjects(L, Component(L, r.vals[1]))
        [] r.f = "cc_length" -> ByObjects(L, Unite({c \in Components(L) : r.lo <= Cardinality(c) /\ Cardinality(c) <= r.hi}))
        [] r.f = "cc_otype"  -> ByObjects(L, Unite({c \in Components(L) : (c \cap OfTy({r.vals[1]}) # {}) = r.pos}))
        [] r.f = "cc_activity" -> ByObjects(L, Unite({c \in Components(L) : \E i \in DOMAIN L.rel : L.rel[i].o \in c /\ L.rel[i].a = r.vals[1]}))
        [] OTHER -> Assert(FALSE, r.f)
Check(r) ==
  LET X == Expected(r)
      K == r.out
  IN  [events |-> K.ev = X.ev,
       objects |-> K.ob = X.ob,
       relations |-> K.rel = X.rel,
       object_links |-> K.o2o = X.o2o,
       event_links |-> K.e2e = X.e2e,
       object_changes |-> K.oc = X.oc,
       input_untouched |-> r.after = r.w,
       spec_consistent |-> Consistent(X)]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
