---- MODULE TrC34 ----
\* Sampling, splitting, sorting, projecting and formatting: what comes out is made of the cases and events that went in.
\*   w: the cases [id, ca, ev] (ev: events [a, t, r, v, i], i unique, times in ms); rows: events with case columns c, ca.
EXTENDS Ocel
VARIABLE l
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
CaseSet(S) == {S[i].c : i \in DOMAIN S}
RowsOf(S, C) == FilterSeq(S, LAMBDA x : x.c \in C)
Sub(S, T) == NoDup(S) /\ Range(S) \subseteq Range(T)
Untouched(r) == "after" \notin DOMAIN r \/ r.after = (IF r.form \in {"df", "stream"} THEN r.rows ELSE r.w)
IsDf(r) == r.form = "df"
NCases(r) == IF IsDf(r) THEN Cardinality(CaseSet(r.rows)) ELSE Len(r.w)

\* ------------------------------------------------------------------ parts of a log
SampleCases(r) ==
  [size |-> (IF IsDf(r) THEN Cardinality(CaseSet(r.out)) ELSE Len(r.out)) = Min2(r.n, NCases(r)),
   complete |-> IF IsDf(r) THEN r.out = RowsOf(r.rows, CaseSet(r.out)) ELSE Sub(r.out, r.w),
   input |-> Untouched(r)]
SampleEvents(r) ==
  LET src == IF r.form = "log" THEN r.w ELSE r.rows
  IN  [size |-> Len(r.out) = Min2(r.n, Len(src)), taken |-> Sub(r.out, src), input |-> Untouched(r)]
Split(r) ==
  LET nt == IF IsDf(r) THEN Cardinality(CaseSet(r.train)) ELSE Len(r.train)
  IN  [whole |-> IF IsDf(r) THEN /\ r.train = RowsOf(r.rows, CaseSet(r.train)) /\ r.test = RowsOf(r.rows, CaseSet(r.test))
                             ELSE Sub(r.train, r.w) /\ Sub(r.test, r.w),
       disjoint |-> IF IsDf(r) THEN CaseSet(r.train) \cap CaseSet(r.test) = {} ELSE Range(r.train) \cap Range(r.test) = {},
       nothing_lost |-> IF IsDf(r) THEN CaseSet(r.train) \cup CaseSet(r.test) = CaseSet(r.rows) ELSE Range(r.train) \cup Range(r.test) = Range(r.w),
       share |-> IF IsDf(r) THEN (r.p = 8 => nt = NCases(r)) /\ (r.p = 0 => nt = 0) ELSE Abs(8 * nt - r.p * NCases(r)) <= 8,
       input |-> Untouched(r)]
\* position of a row inside its case
PosIn(S, i) == Cardinality({j \in 1..i : S[j].c = S[i].c})
Prefix(r) ==
  [cut |-> IF IsDf(r) THEN LET P == FilterSeq([i \in DOMAIN r.rows |-> i], LAMBDA i : PosIn(r.rows, i) <= r.n) IN r.out = [j \in DOMAIN P |-> r.rows[P[j]]]
           ELSE r.out = [i \in DOMAIN r.w |-> [r.w[i] EXCEPT !.ev = SubSeq(r.w[i].ev, 1, Min2(r.n, Len(r.w[i].ev)))]],
   input |-> Untouched(r)]
Fun(r) ==
  [kept |-> CASE r.form = "log" -> r.out = FilterSeq(r.w, LAMBDA x : Len(x.ev) >= r.n)
              [] r.form = "stream" -> r.out = FilterSeq(r.rows, LAMBDA x : x.v >= r.n)
              [] OTHER -> r.out = [i \in DOMAIN r.w |-> [r.w[i] EXCEPT !.ev = FilterSeq(r.w[i].ev, LAMBDA x : x.v >= r.n)]],
   input |-> Untouched(r)]

\* ------------------------------------------------------------------ stable sorting
\* the ranks of the elements of S by key K: elements with the same key keep their order
Rank(S, K(_), rev, i) == 1 + Cardinality({j \in DOMAIN S : (IF rev THEN K(S[j]) > K(S[i]) ELSE K(S[j]) < K(S[i])) \/ (K(S[j]) = K(S[i]) /\ j < i)})
Sorted(S, K(_), rev) == [k \in DOMAIN S |-> S[CHOOSE i \in DOMAIN S : Rank(S, K, rev, i) = k]]
KeyOf(x, k) == IF k = "t" THEN x.t ELSE x.v
Sort(r) ==
  [sorted |-> CASE r.form = "log" -> r.out = Sorted(r.w, LAMBDA x : Len(x.ev), r.reverse)
                [] r.form = "stream" -> r.out = Sorted(r.rows, LAMBDA x : KeyOf(x, r.key), r.reverse)
                [] OTHER -> r.out = [i \in DOMAIN r.w |-> [r.w[i] EXCEPT !.ev = Sorted(r.w[i].ev, LAMBDA x : KeyOf(x, r.key), r.reverse)]],
   input |-> Untouched(r)]
SortTime(r) ==
  LET W == [i \in DOMAIN r.w |-> [r.w[i] EXCEPT !.ev = Sorted(r.w[i].ev, LAMBDA x : x.t, r.reverse)]]
  IN  [sorted |-> IF r.form = "log" THEN r.out = Sorted(FilterSeq(W, LAMBDA x : x.ev # <<>>), LAMBDA x : x.ev[1].t, r.reverse)
                  ELSE r.out = Sorted(r.rows, LAMBDA x : x.t, r.reverse),
       input |-> Untouched(r)]

\* ------------------------------------------------------------------ projections, strings, formats
Att(x, k) == CASE k = "a" -> x.a [] k = "r" -> x.r [] OTHER -> x.v
Project(r) ==
  LET P == [i \in DOMAIN r.w |-> [j \in DOMAIN r.w[i].ev |-> Att(r.w[i].ev[j], r.att)]]
  IN  [values |-> IF IsDf(r) THEN SameBag(r.out, P) ELSE r.out = P, input |-> Untouched(r)]
Parse(r) ==
  [words |-> r.out = r.words, ids |-> r.ids = r.xids,
   times |-> LET T == Flatten(r.times) IN \A i \in 1..(Len(T) - 1) : T[i] < T[i + 1]]
Ser(r) == [same |-> r.out = r.before, input |-> r.after = r.before]
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
\* rows by case (in the order ord) and time, ties in row order
ByCase(S, ord) == Flatten([k \in DOMAIN ord |-> Sorted(FilterSeq(S, LAMBDA x : x.c = ord[k]), LAMBDA x : x.t, FALSE)])
Format(r) ==
  LET X == ByCase(FilterSeq(r.rows, LAMBDA x : x.c # "" /\ x.a # "" /\ x.t # -999999), r.ord)
      C == FilterSeq(r.ord, LAMBDA o : o \in CaseSet(X))
  IN  [rows |-> r.out = X, index |-> r.index = [i \in DOMAIN X |-> i - 1],
       case_index |-> r.cindex = [i \in DOMAIN X |-> Pos(C, X[i].c) - 1], columns |-> r.kept]
Rebase(r) ==
  LET Get(x, k) == CASE k = "r" -> x.r [] k = "a" -> x.a [] OTHER -> x.ca
      Y == [i \in DOMAIN r.rows |-> [r.rows[i] EXCEPT !.c = Get(r.rows[i], r.ci), !.a = Get(r.rows[i], r.ai)]]
      Z(s) == [i \in DOMAIN s |-> [a |-> s[i].a, t |-> s[i].t, v |-> s[i].v, i |-> s[i].i, c |-> s[i].c]]
      X == Z(ByCase(Y, r.ord))
  IN  [events |-> Z(r.out) = X, traces |-> r.form # "log" \/ r.traces = r.ord]
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "+" \o Join(Tail(s))
Classifier(r) ==
  LET E == IF IsDf(r) THEN r.rows ELSE Flatten([i \in DOMAIN r.w |-> r.w[i].ev])
  IN  [value |-> r.cls = [i \in DOMAIN E |-> Join([j \in DOMAIN r.keys |-> Att(E[i], r.keys[j])])],
       rest |-> r.out = (IF IsDf(r) THEN r.rows ELSE r.w), registered |-> r.prop = "@@classifier"]
Strip(e) == [a |-> e.a, t |-> e.t, i |-> e.i]
Artificial(r) ==
  LET d == IF IsDf(r) THEN 1 ELSE 1000
      Wrap(E) == <<[a |-> "S!", t |-> E[1].t - d, i |-> -999999]>> \o [j \in DOMAIN E |-> Strip(E[j])] \o <<[a |-> "E!", t |-> E[Len(E)].t + d, i |-> -999999]>>
      Of(id) == r.w[CHOOSE i \in DOMAIN r.w : r.w[i].id = id].ev
  IN  IF IsDf(r)
      THEN [wrapped |-> /\ CaseSet(r.out) = {r.w[i].id : i \in DOMAIN r.w}
                        /\ \A c \in CaseSet(r.out) : LET K == RowsOf(r.out, {c}) IN [j \in DOMAIN K |-> Strip(K[j])] = Wrap(Of(c))]
      ELSE [wrapped |-> [i \in DOMAIN r.out |-> [id |-> r.out[i].id, ev |-> [j \in DOMAIN r.out[i].ev |-> Strip(r.out[i].ev[j])]]] = [i \in DOMAIN r.w |-> [id |-> r.w[i].id, ev |-> Wrap(r.w[i].ev)]]]
Variants(r) ==
  LET Word(c) == LET K == RowsOf(r.rows, {c}) IN [i \in DOMAIN K |-> K[i].a]
  IN  [partition |-> \A i \in DOMAIN r.out : r.out[i][2] = RowsOf(r.rows, {c \in CaseSet(r.rows) : Word(c) = r.out[i][1]}) /\ r.out[i][2] # <<>>,
       once |-> NoDup([i \in DOMAIN r.out |-> r.out[i][1]]),
       all |-> {r.out[i][1] : i \in DOMAIN r.out} = {Word(c) : c \in CaseSet(r.rows)},
       input |-> Untouched(r)]
Partition(r) ==
  LET Parts == 0..(r.n - 1)
      In(p) == {r.out[i].c : i \in {j \in DOMAIN r.out : r.part[j] = p}}
  IN  [rows |-> r.out = r.rows, range |-> Range(r.part) \subseteq Parts,
       cases_whole |-> \A p, q \in Parts : p # q => In(p) \cap In(q) = {},
       even |-> \A p, q \in Parts : Abs(Cardinality(In(p)) - Cardinality(In(q))) <= 1]

\* ------------------------------------------------------------------ object-centric samples
OcEvents(r) ==
  LET E == EvIds(r.out)
  IN  [size |-> Cardinality(E) = Min2(r.n, Len(r.w.ev)), complete |-> r.out = ByEvents(r.w, E), input |-> r.after = r.w]
OcObjects(r) ==
  LET O == ObIds(r.out)
  IN  [size |-> Cardinality(O) = Min2(r.n, Len(r.w.ob)), complete |-> [r.out EXCEPT !.e2e = <<>>, !.o2o = <<>>] = [ByObjects(r.w, O) EXCEPT !.e2e = <<>>, !.o2o = <<>>],
       links |-> /\ Range(r.out.e2e) = Range(ByObjects(r.w, O).e2e)
                 /\ Range(r.out.o2o) = Range(ByObjects(r.w, O).o2o), input |-> r.after = r.w]
OcComponents(r) ==
  LET O == ObIds(r.out)
      X == ByObjects(r.w, O)
      C == {c \in Components(r.w) : c \cap O # {}}
  IN  [size |-> Cardinality(C) = Min2(r.n, Cardinality(Components(r.w))),
       closed |-> \A c \in C : c \subseteq O,
       complete |-> /\ SameBag(r.out.ev, X.ev) /\ SameBag(r.out.ob, X.ob) /\ SameBag(r.out.rel, X.rel),
       links |-> SameBag(r.out.o2o, FilterSeq(X.o2o, LAMBDA x : Component(r.w, x.o) = Component(r.w, x.p))) /\ SameBag(r.out.e2e, FilterSeq(X.e2e, LAMBDA x : \E c \in Components(r.w) : ObjsOf(r.w, x.e) \cap c # {} /\ ObjsOf(r.w, x.f) \cap c # {})) /\ SameBag(r.out.oc, X.oc),
       input |-> r.after = r.w]

Check(r) ==
  CASE r.op = "cases" -> SampleCases(r)
    [] r.op = "events" -> SampleEvents(r)
    [] r.op = "split" -> Split(r)
    [] r.op = "prefix" -> Prefix(r)
    [] r.op = "fun" -> Fun(r)
    [] r.op = "sort" -> Sort(r)
    [] r.op = "sort_time" -> SortTime(r)
    [] r.op = "project" -> Project(r)
    [] r.op = "parse" -> Parse(r)
    [] r.op = "ser" -> Ser(r)
    [] r.op = "format" -> Format(r)
    [] r.op = "rebase" -> Rebase(r)
    [] r.op = "classifier" -> Classifier(r)
    [] r.op = "artificial" -> Artificial(r)
    [] r.op = "variants" -> Variants(r)
    [] r.op = "partition" -> Partition(r)
    [] r.op = "oc_events" -> OcEvents(r)
    [] r.op = "oc_objects" -> OcObjects(r)
    [] r.op = "oc_cc" -> OcComponents(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
