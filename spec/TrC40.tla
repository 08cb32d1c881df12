---- MODULE TrC40 ----
\* C40: transformations of object-centric logs, and object-centric logs from event tables
EXTENDS Ocel
VARIABLE l
Mx(S) == CHOOSE x \in S : \A y \in S : x >= y
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
PosE(L, e) == CHOOSE i \in DOMAIN L.ev : L.ev[i].id = e
KeepFirst(s, K(_)) == LET I == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : \A j \in 1..(i - 1) : K(s[j]) # K(s[i])) IN [i \in DOMAIN I |-> s[I[i]]]
Same(A, B) == A.ev = B.ev /\ A.ob = B.ob /\ A.rel = B.rel /\ A.o2o = B.o2o /\ A.e2e = B.e2e /\ A.oc = B.oc
\* stable order of the indices 1..n by the keys (tuples of integers)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> \/ b = <<>> THEN a = <<>> /\ b # <<>> ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
RECURSIVE SortIdx(_, _)
SortIdx(S, K) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLess(K[x], K[y]) IN <<m>> \o SortIdx(S \ {m}, K)
ObsShare(L, o, p) == o # p /\ EvsOf(L, o) \cap EvsOf(L, p) # {}
\* ---- duplicates
Drop(r) ==
  LET rel == KeepFirst(r.w.rel, LAMBDA x : <<x.a, x.t, x.o>>)
      E == {x.e : x \in Range(rel)}
      O == {x.o : x \in Range(rel)}
      X == [Restrict(r.w, E, O) EXCEPT !.rel = rel]
  IN  [kept_rows |-> Same(r.out, X), input_untouched |-> r.after = r.w]
\* the class of an event: activity and time (and the common object shared by most events, the last one in the order of identifiers if several)
Class(r, e) ==
  LET x == EvOf(r.w, e)
      N(o) == Cardinality({i \in DOMAIN r.w.rel : r.w.rel[i].o = o /\ r.w.rel[i].a = x.a /\ r.w.rel[i].t = x.t})
      best == CHOOSE o \in ObjsOf(r.w, e) : \A p \in ObjsOf(r.w, e) : N(o) > N(p) \/ (N(o) = N(p) /\ Pos(r.sorted, o) >= Pos(r.sorted, p))
  IN  IF ObjsOf(r.w, e) = {} THEN <<"alone", e>> ELSE IF r.common THEN <<best, x.a, x.t>> ELSE <<x.a, x.t>>
Merge(r) ==
  LET C == [e \in EvIds(r.w) |-> Class(r, e)]
      first == KeepFirst(r.w.ev, LAMBDA x : C[x.id])
      ok == Len(first) = Len(r.out.ev)
      new(e) == r.out.ev[CHOOSE i \in DOMAIN first : C[first[i].id] = C[e]].id
      rel == KeepFirst([i \in DOMAIN r.w.rel |-> [r.w.rel[i] EXCEPT !.e = new(r.w.rel[i].e)]], LAMBDA x : <<x.e, x.o>>)
  IN  [one_event_per_class |-> ok /\ NoDup([i \in DOMAIN r.out.ev |-> r.out.ev[i].id]),
       events_are_the_first_of_the_class |-> ok => \A i \in DOMAIN first : [r.out.ev[i] EXCEPT !.id = ""] = [first[i] EXCEPT !.id = ""],
       relations |-> ok => r.out.rel = rel,
       event_links |-> ok => r.out.e2e = [i \in DOMAIN r.w.e2e |-> [r.w.e2e[i] EXCEPT !.e = new(@), !.f = new(@)]],
       rest |-> r.out.ob = r.w.ob /\ r.out.o2o = r.w.o2o /\ r.out.oc = r.w.oc,
       input_untouched |-> r.after = r.w]
\* ---- order of the events
SortCol(r) ==
  LET I == SortIdx(DOMAIN r.w.ev, [i \in DOMAIN r.w.ev |-> <<r.w.ev[i].t, r.col[i], i>>])
  IN  [order |-> r.out.ev = [i \in DOMAIN I |-> r.w.ev[I[i]]],
       rest |-> r.out.ob = r.w.ob /\ r.out.rel = r.w.rel /\ r.out.o2o = r.w.o2o /\ r.out.e2e = r.w.e2e /\ r.out.oc = r.w.oc,
       input_untouched |-> r.after = r.w]
Delta(r) ==
  [events |-> r.out.ev = [i \in DOMAIN r.w.ev |-> [r.w.ev[i] EXCEPT !.t = @ + (i - 1)]],
   relations |-> r.out.rel = [i \in DOMAIN r.w.rel |-> [r.w.rel[i] EXCEPT !.t = @ + (PosE(r.w, r.w.rel[i].e) - 1)]],
   rest |-> r.out.ob = r.w.ob /\ r.out.o2o = r.w.o2o /\ r.out.e2e = r.w.e2e /\ r.out.oc = r.w.oc,
   input_untouched |-> r.after = r.w]
\* ---- qualifiers of the lifecycle
Stage(L, x) == LET f == Life(L, x.o) IN IF f[1] = x.e THEN "creation" ELSE IF f[Len(f)] = x.e THEN "termination" ELSE "other"
Stages(r) ==
  [qualifiers |-> r.out.rel = [i \in DOMAIN r.w.rel |-> [r.w.rel[i] EXCEPT !.q = Stage(r.w, r.w.rel[i])]],
   rest |-> r.out.ev = r.w.ev /\ r.out.ob = r.w.ob /\ r.out.o2o = r.w.o2o /\ r.out.e2e = r.w.e2e /\ r.out.oc = r.w.oc,
   input_untouched |-> r.after = r.w]
\* ---- one event per relation
Explode(r) ==
  [relations |-> r.out.rel = [i \in DOMAIN r.w.rel |-> [r.w.rel[i] EXCEPT !.e = @ \o "_" \o r.w.rel[i].o]],
   events |-> MapSeq(r.out.ev, LAMBDA x : <<x.id, x.a, x.t>>) = MapSeq(r.w.rel, LAMBDA x : <<x.e \o "_" \o x.o, x.a, x.t>>),
   rest |-> r.out.ob = r.w.ob /\ r.out.o2o = r.w.o2o /\ r.out.oc = r.w.oc,
   input_untouched |-> r.after = r.w]
\* ---- renaming
StartOf(L, o) == EvOf(L, Life(L, o)[1]).t
EndOf(L, o) == EvOf(L, Life(L, o)[Len(Life(L, o))]).t
Rank(L, srt, o) ==
  LET T == {p \in ObIds(L) : ObOf(L, p).ty = ObOf(L, o).ty}
      K(p) == <<StartOf(L, p), EndOf(L, p), Pos(srt, p)>>
  IN  1 + Cardinality({p \in T : LexLess(K(p), K(o))})
NewName(L, srt, o) == ObOf(L, o).ty \o "_" \o ToString(Rank(L, srt, o))
Renamed(L, f) == [L EXCEPT !.ob = [i \in DOMAIN @ |-> [@[i] EXCEPT !.id = f[@]]], !.rel = [i \in DOMAIN @ |-> [@[i] EXCEPT !.o = f[@]]],
                           !.o2o = [i \in DOMAIN @ |-> [@[i] EXCEPT !.o = f[@], !.p = f[@]]], !.oc = [i \in DOMAIN @ |-> [@[i] EXCEPT !.o = f[@]]]]
Rename(r) == LET f == [o \in ObIds(r.w) |-> NewName(r.w, r.sorted, o)] IN [names |-> Same(r.out, Renamed(r.w, f)), input_untouched |-> r.after = r.w]
Retyped(L, f, g) == [L EXCEPT !.ev = [i \in DOMAIN @ |-> [@[i] EXCEPT !.a = f[@]]], !.rel = [i \in DOMAIN @ |-> [@[i] EXCEPT !.a = f[@], !.ty = g[@]]],
                              !.ob = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = g[@]]], !.oc = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = g[@]]]]
PlainNames == ("pay" :> "Pay") @@ ("place order" :> "PlaceOrder") @@ ("pick" :> "Pick") @@ ("a" :> "A") @@ ("b" :> "B") @@ ("order" :> "Order") @@ ("item" :> "Item") @@ ("or" :> "Or") @@ ("p q" :> "PQ")
Strip(r) == [names |-> Same(r.out, Retyped(r.w, PlainNames, PlainNames)), input_untouched |-> r.after = r.w]
Letters == <<"A", "B", "C", "D", "E">>
Abbrev(r) ==
  LET A == {x.a : x \in Range(r.w.ev)}
      freq(a) == Cardinality({i \in DOMAIN r.w.ev : r.w.ev[i].a = a})
      f == [a \in A |-> r.out.ev[CHOOSE i \in DOMAIN r.w.ev : r.w.ev[i].a = a].a]
      ok == Len(r.out.ev) = Len(r.w.ev) /\ \A a \in A : f[a] \in {Letters[i] : i \in 1..Cardinality(A)}
  IN  [letters |-> ok /\ Cardinality({f[a] : a \in A}) = Cardinality(A),
       most_frequent_first |-> ok => \A a, b \in A : freq(a) > freq(b) => Pos(Letters, f[a]) < Pos(Letters, f[b]),
       names |-> ok => Same(r.out, Retyped(r.w, f, [t \in {x.ty : x \in Range(r.w.ob)} |-> t])),
       input_untouched |-> r.after = r.w]
\* ---- an attribute of the events becomes an object type
ToType(r) ==
  LET v(x) == AttrOf(x, r.key)
      withV == FilterSeq(r.w.ev, LAMBDA x : v(x) # "")
      vals == KeepFirst(MapSeq(withV, v), LAMBDA x : x)
      newrel == MapSeq(withV, LAMBDA x : [e |-> x.id, a |-> x.a, t |-> x.t, o |-> v(x), ty |-> r.key, q |-> "", at |-> <<>>])
      all == r.w.rel \o newrel
      out == MapSeq(r.out.rel, LAMBDA x : [x EXCEPT !.at = <<>>])
  IN  [events |-> r.out.ev = MapSeq(r.w.ev, LAMBDA x : [x EXCEPT !.at = FilterSeq(@, LAMBDA z : z[1] # r.key)]),
       objects |-> r.out.ob = r.w.ob \o MapSeq(vals, LAMBDA x : [id |-> x, ty |-> r.key, at |-> <<>>]),
       relations |-> SameBag(out, all) /\ FilterSeq(out, LAMBDA x : x.ty # r.key) = r.w.rel,
       time_order |-> \A i, j \in DOMAIN out : i < j => out[i].t <= out[j].t,
       rest |-> r.out.o2o = r.w.o2o /\ r.out.e2e = r.w.e2e /\ r.out.oc = r.w.oc,
       input_untouched |-> r.after = r.w]
\* ---- the parent of a child object
Parent(r) ==
  LET par(o) == {p \in ObIds(r.w) : ObOf(r.w, p).ty = r.parent /\ ObsShare(r.w, o, p)}
      col == r.parent \o "ID"
  IN  [parents |-> Len(r.out.ob) = Len(r.w.ob) /\ \A i \in DOMAIN r.out.ob :
          LET o == r.w.ob[i] IN  /\ [r.out.ob[i] EXCEPT !.at = FilterSeq(@, LAMBDA z : z[1] # col)] = o
                                 /\ IF o.ty = r.child /\ par(o.id) # {} THEN AttrOf(r.out.ob[i], col) \in par(o.id) ELSE AttrOf(r.out.ob[i], col) = "",
       rest |-> r.out.ev = r.w.ev /\ r.out.rel = r.w.rel /\ r.out.o2o = r.w.o2o /\ r.out.e2e = r.w.e2e /\ r.out.oc = r.w.oc]
\* ---- one table per type
Bag(s, t) == SameBag(s, t)
Tables(r) ==
  LET L == r.w
      K(T) == {<<r.out[T][i].k, r.out[T][i].rows>> : i \in DOMAIN r.out[T]}
      ty(o) == ObOf(L, o).ty
  IN  [events |-> K("ev_types") = {<<<<a>>, MapSeq(FilterSeq(L.ev, LAMBDA x : x.a = a), LAMBDA x : <<x.id>>)>> : a \in {x.a : x \in Range(L.ev)}},
       objects |-> K("obj_types") = {<<<<a>>, MapSeq(FilterSeq(L.ob, LAMBDA x : x.ty = a), LAMBDA x : <<x.id>>)>> : a \in {x.ty : x \in Range(L.ob)}},
       relations |-> K("e2o") = {<<k, MapSeq(FilterSeq(L.rel, LAMBDA x : <<x.a, x.ty>> = k), LAMBDA x : <<x.e, x.o>>)>> : k \in {<<x.a, x.ty>> : x \in Range(L.rel)}},
       links |-> K("o2o") = {<<k, MapSeq(FilterSeq(L.o2o, LAMBDA x : <<ty(x.o), ty(x.p)>> = k), LAMBDA x : <<x.o, x.p>>)>> : k \in {<<ty(x.o), ty(x.p)>> : x \in Range(L.o2o)}},
       changes |-> K("changes") = {<<<<a>>, MapSeq(FilterSeq(L.oc, LAMBDA x : x.ty = a), LAMBDA x : <<x.o>>)>> : a \in {x.ty : x \in Range(L.oc)}}]
\* ---- splitting
SplitCC(r) ==
  LET cs == Components(r.w) IN
  [one_log_per_component |-> Len(r.outs) = Cardinality(cs),
   parts |-> \A c \in cs : \E i \in DOMAIN r.outs : Same(r.outs[i], ByObjects(r.w, c)),
   input_untouched |-> r.after = r.w]
RECURSIVE Grow(_, _)
Grow(S, F) == LET T == S \cup UNION {F[x] : x \in S} IN IF T = S THEN S ELSE Grow(T, F)
\* older objects come first; among objects of one age those of the chosen type, and these in the order of their identifiers
Arc(L, srt, ty, o, p) == o # p /\ ObsShare(L, o, p) /\ (StartOf(L, o) < StartOf(L, p) \/ (StartOf(L, o) = StartOf(L, p) /\ ObOf(L, o).ty = ty /\ (ObOf(L, p).ty # ty \/ Pos(srt, o) < Pos(srt, p))))
Family(L, srt, ty, o) ==
  LET O == ObIds(L)
      N == [x \in O |-> {p \in O : Arc(L, srt, ty, x, p)}]
  IN  Grow({o}, N) \cup Grow({o}, [x \in O |-> {p \in O : x \in N[p]}])
\* canonical form of a part: the events (ordered by time, activity and identifier) with the renamed objects
Canon(L, srt, sa, se) ==
  LET f == [o \in ObIds(L) |-> NewName(L, srt, o)]
      I == SortIdx(DOMAIN L.ev, [i \in DOMAIN L.ev |-> <<L.ev[i].t, Pos(sa, L.ev[i].a), Pos(se, L.ev[i].id)>>])
      row(i) == <<L.ev[i].a, {f[o] : o \in ObjsOf(L, L.ev[i].id)}>>
  IN  <<[j \in DOMAIN I |-> row(I[j])], {<<f[o], ObOf(L, o).ty>> : o \in ObIds(L)}>>
SplitFam(r) ==
  LET C == FilterSeq(r.w.ob, LAMBDA x : x.ty = r.ty)
      n == Min2(Len(C), r.max)
  IN  [one_log_per_object |-> MapSeq(r.outs, LAMBDA x : x.central) = [i \in 1..n |-> C[i].id],
       parts |-> \A i \in DOMAIN r.outs : Same(r.outs[i].log, ByObjects(r.w, Family(r.w, r.sorted, r.ty, r.outs[i].central))),
       input_untouched |-> r.after = r.w]
Cluster(r) ==
  LET C == FilterSeq(r.w.ob, LAMBDA x : x.ty = r.ty)
      F(o) == ByObjects(r.w, Family(r.w, r.sorted, r.ty, o))
      all == Flatten(r.outs)
      K == [o \in {x.id : x \in Range(C)} |-> Canon(F(o), r.sorted, r.sa, r.se)]
      in(o) == CHOOSE k \in DOMAIN r.outs : o \in Range(r.outs[k])
  IN  [a_partition |-> SameBag(all, MapSeq(C, LAMBDA x : x.id)),
       equivalent_together |-> SameBag(all, MapSeq(C, LAMBDA x : x.id)) => \A x, y \in Range(all) : (in(x) = in(y)) <=> (K[x] = K[y]),
       input_untouched |-> r.after = r.w]
\* ---- from the extended table
Extended(r) ==
  LET L == r.w IN
  [events |-> r.out.ev = L.ev,
   objects |-> IF r.withobs THEN r.out.ob = L.ob ELSE {<<x.id, x.ty>> : x \in Range(r.out.ob)} = {<<x.o, x.ty>> : x \in Range(L.rel)} /\ Len(r.out.ob) = Cardinality(RelOb(L)),
   relations |-> SameBag(MapSeq(r.out.rel, LAMBDA x : <<x.e, x.a, x.t, x.o, x.ty>>), MapSeq(L.rel, LAMBDA x : <<x.e, x.a, x.t, x.o, x.ty>>)),
   relations_in_time_order |-> \A i, j \in DOMAIN r.out.rel : i < j => r.out.rel[i].t <= r.out.rel[j].t,
   iterated |-> MapSeq(r.iter, LAMBDA x : [x EXCEPT !.o = Range(@)]) = MapSeq(L.ev, LAMBDA x : [e |-> x.id, a |-> x.a, t |-> x.t, at |-> x.at, o |-> {<<y.o, y.ty>> : y \in {z \in Range(L.rel) : z.e = x.id}}])]
\* ---- from an event table: rows <<case, activity, time, event attribute or "", case attribute or "">> in table order
Rows(r) == r.rows
FromLog(r) ==
  LET n == Len(r.rows)
      I == r.order
      cases == KeepFirst(MapSeq(r.rows, LAMBDA x : x.c), LAMBDA x : x)
      cat(c) == LET S == FilterSeq(r.rows, LAMBDA x : x.c = c /\ x.ca # "") IN IF S = <<>> THEN "" ELSE S[1].ca
      at(x) == IF x.ea = "" THEN <<>> ELSE <<<<"x", x.ea>>>>
      evs == {<<i, r.rows[i].a, r.rows[i].t, at(r.rows[i])>> : i \in 1..n}
      num(id) == CHOOSE i \in 1..n : r.ids[i] = id
  IN  [events |-> Len(r.out.ev) = n /\ {x.id : x \in Range(r.out.ev)} = Range(r.ids) /\ {<<num(x.id), x.a, x.t, x.at>> : x \in Range(r.out.ev)} = evs,
       objects |-> SameBag(r.out.ob, MapSeq(cases, LAMBDA c : [id |-> c, ty |-> r.ty, at |-> IF cat(c) = "" THEN <<>> ELSE <<<<r.can, cat(c)>>>>])),
       relations |-> Len(r.out.rel) = n /\ {<<num(x.e), x.a, x.t, x.o, x.ty>> : x \in Range(r.out.rel)} = {<<i, r.rows[i].a, r.rows[i].t, r.rows[i].c, r.ty>> : i \in 1..n},
       time_order |-> r.sortd => (\A i \in 1..(Len(r.out.ev) - 1) : r.out.ev[i].t <= r.out.ev[i + 1].t) /\ (\A i \in 1..(Len(r.out.rel) - 1) : r.out.rel[i].t <= r.out.rel[i + 1].t),
       input_untouched |-> r.same]
\* columns with several objects: rows [a, t, at, o: sequence of <<type, sequence of objects>>]
MultiLog(r) ==
  LET n == Len(r.rows)
      pairs == Flatten([i \in 1..n |-> Flatten(MapSeq(r.rows[i].o, LAMBDA z : MapSeq(z[2], LAMBDA o : <<ToString(i - 1), o, z[1], i>>)))])
      objs == KeepFirst(pairs, LAMBDA x : x[2])
      oat(x) == IF x[3] # r.oty \/ r.rows[x[4]].m = "" THEN <<>> ELSE <<<<"m", r.rows[x[4]].m>>>>
  IN  [events |-> r.out.ev = [i \in 1..n |-> [id |-> ToString(i - 1), a |-> r.rows[i].a, t |-> r.rows[i].t, at |-> r.rows[i].at]],
       objects |-> r.out.ob = MapSeq(objs, LAMBDA x : [id |-> x[2], ty |-> x[3], at |-> oat(x)]),
       relations |-> MapSeq(r.out.rel, LAMBDA x : <<x.e, x.a, x.t, x.o, x.ty>>) = MapSeq(KeepFirst(pairs, LAMBDA x : <<x[1], x[2]>>), LAMBDA x : <<x[1], r.rows[x[4]].a, r.rows[x[4]].t, x[2], x[3]>>),
       input_untouched |-> r.same]
\* ---- interleavings of the events of related cases; every case starts before and ends after everything (times of the rows are distinct)
Far == 1000000
Ext(s) == <<[a |-> "^", t |-> -Far]>> \o s \o <<[a |-> "$", t |-> Far]>>
Pairs(A, B) ==
  LET x == Ext(A)
      y == Ext(B)
  IN  {<<x[i].a, y[j].a, x[i].t, y[j].t, "LR">> : <<i, j>> \in {p \in (1..(Len(x) - 1)) \X (1..(Len(y) - 1)) : x[p[1]].t < y[p[2]].t /\ y[p[2]].t < x[p[1] + 1].t /\ x[p[1] + 1].t < y[p[2] + 1].t}}
      \cup {<<y[j + 1].a, x[i + 1].a, y[j + 1].t, x[i + 1].t, "RL">> : <<i, j>> \in {p \in (1..(Len(x) - 1)) \X (1..(Len(y) - 1)) : y[p[2]].t < x[p[1]].t /\ x[p[1]].t < y[p[2] + 1].t /\ y[p[2] + 1].t < x[p[1] + 1].t}}
Inter(r) ==
  LET S == [k \in DOMAIN r.cr |-> Pairs(r.cr[k].l, r.cr[k].r)] IN
  [interleavings |-> Range(r.out) = UNION {S[k] : k \in DOMAIN S},
   no_more |-> Len(r.out) = SumSeq([k \in DOMAIN S |-> Cardinality(S[k])])]
FromInter(r) ==
  LET all == r.l \o r.r
      A(x) == <<x.id, x.a, x.t>>
      extra == MapSeq(r.iv, LAMBDA v : IF v.d = "LR" THEN <<v.l, v.r>> ELSE <<v.r, v.l>>)
      row(id) == all[CHOOSE i \in DOMAIN all : all[i].id = id]
      own == MapSeq(all, LAMBDA x : <<x.id, x.a, x.t, x.c, x.ty>>)
      oth == MapSeq(extra, LAMBDA p : <<p[1], row(p[1]).a, row(p[1]).t, row(p[2]).c, row(p[2]).ty>>)
  IN  [events |-> SameBag(MapSeq(r.out.ev, A), MapSeq(all, A)),
       objects |-> {<<x.id, x.ty>> : x \in Range(r.out.ob)} = {<<x.c, x.ty>> : x \in Range(all)} /\ Len(r.out.ob) = Cardinality({x.c : x \in Range(all)}),
       relations |-> SameBag(MapSeq(r.out.rel, LAMBDA x : <<x.e, x.a, x.t, x.o, x.ty>>), own \o oth),
       time_order |-> \A i \in 1..(Len(r.out.rel) - 1) : r.out.rel[i].t <= r.out.rel[i + 1].t]
\* ---- linked events: rows [i, o] of distinct times; the out value of one equals the in value of another
Links(r) ==
  LET n == Len(r.rows)
      base == {p \in (1..n) \X (1..n) : r.rows[p[1]].o = r.rows[p[2]].i /\ (r.fwd => p[1] < p[2])}
      fst == IF r.first THEN {p \in base : \A q \in base : q[1] = p[1] => p[2] <= q[2]} ELSE base
      reach(x) == Grow({p[2] : p \in {q \in fst : q[1] = x}}, [y \in 1..n |-> {p[2] : p \in {q \in fst : q[1] = y}}])
      E == IF r.prop THEN UNION {{<<x, y>> : y \in reach(x)} : x \in 1..n} ELSE fst
  IN  [links |-> Range(r.out) = E, once |-> NoDup(r.out)]
Check(r) ==
  CASE r.op = "drop" -> Drop(r) [] r.op = "merge" -> Merge(r) [] r.op = "sortcol" -> SortCol(r) [] r.op = "delta" -> Delta(r)
    [] r.op = "stages" -> Stages(r) [] r.op = "explode" -> Explode(r) [] r.op = "rename" -> Rename(r) [] r.op = "strip" -> Strip(r)
    [] r.op = "abbrev" -> Abbrev(r) [] r.op = "totype" -> ToType(r) [] r.op = "parent" -> Parent(r) [] r.op = "tables" -> Tables(r)
    [] r.op = "splitcc" -> SplitCC(r) [] r.op = "splitfam" -> SplitFam(r) [] r.op = "cluster" -> Cluster(r) [] r.op = "ext" -> Extended(r)
    [] r.op = "fromlog" -> FromLog(r) [] r.op = "multi" -> MultiLog(r) [] r.op = "inter" -> Inter(r) [] r.op = "frominter" -> FromInter(r)
    [] r.op = "links" -> Links(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
