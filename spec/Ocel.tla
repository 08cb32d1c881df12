---- MODULE Ocel ----
\* Object-centric event logs: an OCEL is a record of six tables (sequences of rows in time order)
\*   ev  events  [id, a, t, at]          ob  objects [id, ty, at]
\*   rel event-to-object [e, a, t, o, ty, q, at]   o2o [o, p, q, at]   e2e [e, f, q, at]   oc object changes [o, ty, t, f, at]
\* Attributes (at) are sequences of <<name, value>>; absent values are left out; missing qualifiers are "".
EXTENDS Tk
EvIds(L) == {L.ev[i].id : i \in DOMAIN L.ev}
ObIds(L) == {L.ob[i].id : i \in DOMAIN L.ob}
RelEv(L) == {L.rel[i].e : i \in DOMAIN L.rel}
RelOb(L) == {L.rel[i].o : i \in DOMAIN L.rel}
EvOf(L, e) == L.ev[CHOOSE i \in DOMAIN L.ev : L.ev[i].id = e]
ObOf(L, o) == L.ob[CHOOSE i \in DOMAIN L.ob : L.ob[i].id = o]
ObjsOf(L, e) == {r.o : r \in {x \in Range(L.rel) : x.e = e}}
EvsOf(L, o) == {r.e : r \in {x \in Range(L.rel) : x.o = o}}
AttrOf(x, k) == IF \E i \in DOMAIN x.at : x.at[i][1] = k THEN x.at[CHOOSE i \in DOMAIN x.at : x.at[i][1] = k][2] ELSE ""
\* the events of an object, in the order of the event-to-object table (time order)
Life(L, o) == LET R == FilterSeq(L.rel, LAMBDA x : x.o = o) IN [i \in DOMAIN R |-> R[i].e]
\* tables agree with one another: the rows of the relations repeat activity, time and type of the events and objects
Consistent(L) ==
  /\ NoDup([i \in DOMAIN L.ev |-> L.ev[i].id]) /\ NoDup([i \in DOMAIN L.ob |-> L.ob[i].id])
  /\ \A i \in DOMAIN L.rel : LET x == L.rel[i] IN x.e \in EvIds(L) /\ x.o \in ObIds(L) /\ EvOf(L, x.e).a = x.a /\ EvOf(L, x.e).t = x.t /\ ObOf(L, x.o).ty = x.ty
  /\ \A i \in DOMAIN L.o2o : L.o2o[i].o \in ObIds(L) /\ L.o2o[i].p \in ObIds(L)
  /\ \A i \in DOMAIN L.e2e : L.e2e[i].e \in EvIds(L) /\ L.e2e[i].f \in EvIds(L)
  /\ \A i \in DOMAIN L.oc : L.oc[i].o \in ObIds(L)

\* ------------------------------------------------------------------ sub-logs: which rows remain, rows themselves untouched
Restrict(L, E, O) ==
  [ev  |-> FilterSeq(L.ev, LAMBDA x : x.id \in E),
   ob  |-> FilterSeq(L.ob, LAMBDA x : x.id \in O),
   rel |-> FilterSeq(L.rel, LAMBDA x : x.e \in E /\ x.o \in O),
   o2o |-> FilterSeq(L.o2o, LAMBDA x : x.o \in O /\ x.p \in O),
   e2e |-> FilterSeq(L.e2e, LAMBDA x : x.e \in E /\ x.f \in E),
   oc  |-> FilterSeq(L.oc, LAMBDA x : x.o \in O)]
\* selecting events: the objects that keep a related event remain
ByEvents(L, E) == Restrict(L, E \cap EvIds(L), {r.o : r \in {x \in Range(L.rel) : x.e \in E}})
\* selecting objects: the events that keep a related object remain
ByObjects(L, O) == Restrict(L, {r.e : r \in {x \in Range(L.rel) : x.o \in O}}, O \cap ObIds(L))
\* selecting relations
ByRelations(L, P(_)) ==
  LET R == {x \in Range(L.rel) : P(x)}
      M == Restrict(L, {x.e : x \in R}, {x.o : x \in R})
  IN  [M EXCEPT !.rel = FilterSeq(L.rel, P)]

\* ------------------------------------------------------------------ object interaction
Together(L, o) == UNION {ObjsOf(L, e) : e \in EvsOf(L, o)} \cup {o}
RECURSIVE Expand(_, _, _)
Expand(L, O, n) == IF n = 0 THEN O ELSE Expand(L, UNION {Together(L, o) : o \in O}, n - 1)
RECURSIVE Closure(_, _)
Closure(L, O) == LET P == UNION {Together(L, o) : o \in O} IN IF P = O THEN O ELSE Closure(L, P)
Component(L, o) == Closure(L, {o})
Components(L) == {Component(L, o) : o \in ObIds(L)}
====
