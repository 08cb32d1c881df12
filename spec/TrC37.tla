---- MODULE TrC37 ----
\* C37: features, targets and rates extracted from a log for machine learning
\* r.log: cases [id, (ca), (cn), ev: <<[a, t, s, (r), (v)]>>]; events of a case ordered by start and by completion
EXTENDS Tk, FiniteSetsExt
VARIABLE l
Ev(c) == c.ev
First(c) == c.ev[1]
Last(c) == c.ev[Len(c.ev)]
Key(at) == CASE at = "concept:name" -> "a" [] at = "org:resource" -> "r" [] at = "val" -> "v" [] at = "cattr" -> "ca" [] at = "cnum" -> "cn"
TKey(at) == IF at = "concept:name" THEN "id" ELSE Key(at)
Activities(L) == UNION {{e.a : e \in Range(c.ev)} : c \in Range(L)}
Resources(L) == UNION {{e.r : e \in {x \in Range(c.ev) : Has(x, "r")}} : c \in Range(L)}

\* ---- a feature is <<name, value of every case>>
Hot(L, G(_)) == {<<n, [i \in DOMAIN L |-> IF n \in G(L[i]) THEN 1 ELSE 0]>> : n \in UNION {G(c) : c \in Range(L)}}
Num(L, n, F(_)) == {<<n, [i \in DOMAIN L |-> F(L[i])]>>}
StrTr(L, at) == Hot(L, LAMBDA c : {"trace:" \o at \o "@" \o (IF Has(c, TKey(at)) THEN c[TKey(at)] ELSE "UNDEFINED")})
EvVals(c, k) == {e[k] : e \in {x \in Range(c.ev) : Has(x, k)}}
StrEv(L, at) == Hot(L, LAMBDA c : IF EvVals(c, Key(at)) = {} THEN {"event:" \o at \o "@UNDEFINED"} ELSE {"event:" \o at \o "@" \o x : x \in EvVals(c, Key(at))})
LastVal(c, k) == c.ev[Max({i \in DOMAIN c.ev : Has(c.ev[i], k)})][k]
NumTr(L, at) == Num(L, "trace:" \o at, LAMBDA c : c[TKey(at)])
NumEv(L, at) == Num(L, "event:" \o at, LAMBDA c : LastVal(c, Key(at)))
SuccNames(c, at) == {"succession:" \o at \o "@" \o c.ev[i][Key(at)] \o "#" \o c.ev[i + 1][Key(at)] : i \in {j \in 1..(Len(c.ev) - 1) : Has(c.ev[j], Key(at)) /\ Has(c.ev[j + 1], Key(at))}}
StrSucc(L, at) == Hot(L, LAMBDA c : IF SuccNames(c, at) = {} THEN {"succession:" \o at \o "@UNDEFINED"} ELSE SuccNames(c, at))
Chosen(r) ==
  UNION {StrTr(r.log, x) : x \in Range(r.str_tr)} \cup UNION {NumTr(r.log, x) : x \in Range(r.num_tr)} \cup UNION {StrEv(r.log, x) : x \in Range(r.str_ev)}
  \cup UNION {NumEv(r.log, x) : x \in Range(r.num_ev)} \cup UNION {StrSucc(r.log, x) : x \in Range(r.succ)}
\* without a choice: attributes present in every case; strings with few values; activities and their successions
EveryEv(L, k) == \A c \in Range(L) : EvVals(c, k) # {}
EveryTr(L, k) == \A c \in Range(L) : Has(c, k)
AutoChoice(L) ==
  (IF EveryTr(L, "ca") THEN StrTr(L, "cattr") ELSE {}) \cup (IF EveryTr(L, "cn") THEN NumTr(L, "cnum") ELSE {})
  \cup StrEv(L, "concept:name") \cup (IF EveryEv(L, "r") THEN StrEv(L, "org:resource") ELSE {}) \cup (IF EveryEv(L, "v") THEN NumEv(L, "val") ELSE {}) \cup StrSucc(L, "concept:name")
\* dataframes: columns, no value for "undefined"
Blank(x) == CASE x = "R 3" -> "R3" [] x = "d e" -> "de" [] OTHER -> x      \* column names are written without blanks
DfStr(L, col, G(_)) == {<<col \o "_" \o Blank(n), [i \in DOMAIN L |-> IF n \in G(L[i]) THEN 1 ELSE 0]>> : n \in UNION {G(c) : c \in Range(L)}}
TrVals(c, k) == IF Has(c, k) THEN {c[k]} ELSE {}
DfChosen(r) ==
  UNION {DfStr(r.log, "case:" \o x, LAMBDA c : TrVals(c, TKey(x))) : x \in Range(r.str_tr)} \cup UNION {Num(r.log, "case:" \o x, LAMBDA c : c[TKey(x)]) : x \in Range(r.num_tr)}
  \cup UNION {DfStr(r.log, x, LAMBDA c : EvVals(c, Key(x))) : x \in Range(r.str_ev)} \cup UNION {Num(r.log, x, LAMBDA c : LastVal(c, Key(x))) : x \in Range(r.num_ev)}
Vals(L, G(_)) == UNION {G(c) : c \in Range(L)}
Enough(r, L, G(_)) == Cardinality(Vals(L, G)) >= r.mn /\ \A c \in Range(L) : G(c) # {}
DfAuto(r) ==
  LET L == r.log
      Cn(c) == TrVals(c, "ca")
      Rs(c) == EvVals(c, "r")
  IN DfStr(L, "concept:name", LAMBDA c : EvVals(c, "a")) \cup (IF Enough(r, L, Cn) THEN DfStr(L, "case:cattr", Cn) ELSE {}) \cup (IF Enough(r, L, Rs) THEN DfStr(L, "org:resource", Rs) ELSE {})
     \cup (IF EveryTr(L, "cn") THEN Num(L, "case:cnum", LAMBDA c : c.cn) ELSE {}) \cup (IF EveryEv(L, "v") THEN Num(L, "val", LAMBDA c : LastVal(c, "v")) ELSE {})
\* ---- additional features
Occ(c, a) == {i \in DOMAIN c.ev : c.ev[i].a = a}
At(L, n, a, Pick(_), F(_, _)) == Num(L, n \o "@@" \o a, LAMBDA c : IF Occ(c, a) = {} THEN 0 ELSE F(c, c.ev[Pick(Occ(c, a))]))
Times(L, a) ==
  At(L, "startToFirstOcc", a, Min, LAMBDA c, e : e.s - First(c).t) \cup At(L, "firstOccToEnd", a, Min, LAMBDA c, e : Last(c).s - e.t)
  \cup At(L, "startToLastOcc", a, Max, LAMBDA c, e : e.s - First(c).t) \cup At(L, "lastOccToEnd", a, Max, LAMBDA c, e : Last(c).s - e.t)
Pairs(c, direct) == {p \in (DOMAIN c.ev) \X (DOMAIN c.ev) : IF direct THEN p[2] = p[1] + 1 ELSE p[2] > p[1] + 1}
PathTime(c, p, direct) ==
  LET S == {q \in Pairs(c, direct) : c.ev[q[1]].a = p[1] /\ c.ev[q[2]].a = p[2] /\ c.ev[q[2]].s > c.ev[q[1]].t}
      q == CHOOSE q \in S : \A z \in S : z[1] < q[1] \/ (z[1] = q[1] /\ z[2] <= q[2])
  IN  IF S = {} THEN 0 ELSE c.ev[q[2]].s - c.ev[q[1]].t
Paths(L, direct) == UNION {{<<c.ev[q[1]].a, c.ev[q[2]].a>> : q \in Pairs(c, direct)} : c \in Range(L)}
Meet(c, d) == First(c).s <= Last(d).t /\ First(d).s <= Last(c).t
Conc(c, same) == LET N(i) == Cardinality({j \in DOMAIN c.ev : j > i /\ c.ev[j].s <= c.ev[i].t /\ (same = "" \/ c.ev[j].a = same)}) IN Max({0} \cup {N(i) : i \in {k \in DOMAIN c.ev : same = "" \/ c.ev[k].a = same}})
Extra(L) ==
  Num(L, "@@caseDuration", LAMBDA c : Last(c).t - First(c).s)
  \cup UNION {Times(L, a) : a \in Activities(L)}
  \cup UNION {Num(L, "directPathPerformanceLastOcc@@" \o p[1] \o "##" \o p[2], LAMBDA c : PathTime(c, p, TRUE)) : p \in Paths(L, TRUE)}
  \cup UNION {Num(L, "indirectPathPerformanceLastOcc@@" \o p[1] \o "##" \o p[2], LAMBDA c : PathTime(c, p, FALSE)) : p \in Paths(L, FALSE)}
  \cup Num(L, "@@work_in_progress", LAMBDA c : Cardinality({j \in DOMAIN L : Meet(c, L[j])}))
  \cup UNION {Num(L, "resource_workload@@" \o x, LAMBDA c : IF x \in EvVals(c, "r") THEN Cardinality({j \in DOMAIN L : x \in EvVals(L[j], "r") /\ Meet(c, L[j])}) ELSE 0) : x \in Resources(L)}
  \cup UNION {Num(L, "firstIndexAct@@" \o a, LAMBDA c : IF Occ(c, a) = {} THEN -1 ELSE Min(Occ(c, a)) - 1) : a \in Activities(L)}
  \cup UNION {Num(L, "lastIndexAct@@" \o a, LAMBDA c : IF Occ(c, a) = {} THEN -1 ELSE Max(Occ(c, a)) - 1) : a \in Activities(L)}
  \cup Num(L, "@@max_concurrent_activities_general", LAMBDA c : Conc(c, ""))
  \cup UNION {Num(L, "@@max_concurrent_activities_like_" \o a, LAMBDA c : Conc(c, a)) : a \in Activities(L)}
Exactly(r, exp) == [features |-> Range(r.feat) = exp, distinct_names |-> NoDup(r.feat) /\ Cardinality({f[1] : f \in Range(r.feat)}) = Len(r.feat), case_ids |-> r.ids = <<>> \/ r.ids = [i \in DOMAIN r.log |-> r.log[i].id]]
\* ---- one vector per event
EbNames(r) ==
  LET S(k, at) == UNION {EvVals(c, k) : c \in Range(r.log)}
      W(k, at) == IF Cardinality(S(k, at)) >= r.mn THEN {"event:" \o at \o "@" \o x : x \in S(k, at)} ELSE {}
      All == \A c \in Range(r.log) : \A e \in Range(c.ev) : Has(e, "v")
  IN W("a", "concept:name") \cup W("r", "org:resource") \cup (IF All THEN {"event:val"} ELSE {})
EbVal(e, n) == IF n = "event:val" THEN e.v ELSE IF n = "event:concept:name@" \o e.a \/ (Has(e, "r") /\ n = "event:org:resource@" \o e.r) THEN 1 ELSE 0
EventBased(r) ==
  [names |-> Range(r.names) = EbNames(r) /\ NoDup(r.names),
   shape |-> Len(r.data) = Len(r.log) /\ \A i \in DOMAIN r.data : Len(r.data[i]) = Max({Len(c.ev) : c \in Range(r.log)}),
   values |-> \A i \in DOMAIN r.data : \A j \in DOMAIN r.data[i] : \A n \in DOMAIN r.names :
                r.data[i][j][n] = IF j <= Len(r.log[i].ev) THEN EbVal(r.log[i].ev[j], r.names[n]) ELSE 0]
\* ---- targets
Width(r, i) == IF r.pad THEN Max({Len(c.ev) : c \in Range(r.log)}) ELSE Len(r.log[i].ev)
Target(r) ==
  LET Want(i, j) == LET c == r.log[i]
                        n == Len(c.ev) IN
                    CASE r.k = "next_activity" -> [x \in DOMAIN r.classes |-> IF j < n /\ c.ev[j + 1].a = r.classes[x] THEN 1 ELSE 0]
                      [] r.k = "next_time" -> IF j < n THEN c.ev[j + 1].t - c.ev[j].t ELSE 0
                      [] r.k = "remaining_time" -> IF j <= n THEN Last(c).t - c.ev[j].t ELSE 0
  IN [classes |-> r.k = "next_activity" => Range(r.classes) = Activities(r.log) /\ NoDup(r.classes),
      shape |-> Len(r.data) = Len(r.log) /\ \A i \in DOMAIN r.data : Len(r.data[i]) = Width(r, i),
      values |-> \A i \in DOMAIN r.data : \A j \in DOMAIN r.data[i] : r.data[i][j] = Want(i, j)]
\* ---- arrival, finish, service, waiting and sojourn times of a case
CaseT(c, f) == IF f = "arr" THEN First(c).s ELSE Last(c).t
Gap(L, c, f) ==
  LET B == {d \in Range(L) : CaseT(d, f) < CaseT(c, f) \/ (CaseT(d, f) = CaseT(c, f) /\ d.n < c.n)}
  IN  IF B = {} THEN 0 ELSE CaseT(c, f) - Max({CaseT(d, f) : d \in B})
Serv(c) == SumSeq([i \in DOMAIN c.ev |-> c.ev[i].t - c.ev[i].s])
Soj(c) == Last(c).t - First(c).s
CaseOf(L, id) == CHOOSE c \in Range(L) : c.id = id
Rates(r) ==
  [rows_kept |-> MapSeq(r.rows, LAMBDA x : <<x.id, x.a, x.t>>) = MapSeq(r.order, LAMBDA p : <<r.log[p[1]].id, r.log[p[1]].ev[p[2]].a, r.log[p[1]].ev[p[2]].t>>),
   arrival |-> \A x \in Range(r.rows) : Has(x, "arr") => x.arr = Gap(r.log, CaseOf(r.log, x.id), "arr"),
   finish |-> \A x \in Range(r.rows) : Has(x, "fin") => x.fin = Gap(r.log, CaseOf(r.log, x.id), "fin"),
   service |-> \A x \in Range(r.rows) : Has(x, "serv") => x.serv = Serv(CaseOf(r.log, x.id)),
   sojourn |-> \A x \in Range(r.rows) : Has(x, "soj") => x.soj = Soj(CaseOf(r.log, x.id)),
   waiting |-> \A x \in Range(r.rows) : Has(x, "wait") => x.wait = Soj(CaseOf(r.log, x.id)) - Serv(CaseOf(r.log, x.id)),
   features |-> Has(r, "feat") => \A i \in DOMAIN r.rows : r.rows[i].f = (LET k == CHOOSE k \in DOMAIN r.log : r.log[k].id = r.rows[i].id IN {<<f[1], f[2][k]>> : f \in DfAuto(r)})]
\* ---- temporal buckets (r.size seconds, aligned to midnight)
Bucket(r, e) == (e.s + 28800) \div r.size
Temporal(r) ==
  LET L == r.log
      All == UNION {{<<c, j>> : j \in DOMAIN L[c].ev} : c \in DOMAIN L}
      B == {Bucket(r, L[p[1]].ev[p[2]]) : p \in All}
      lo == Min(B)
      In(k) == {p \in All : Bucket(r, L[p[1]].ev[p[2]]) = k}
      Cs(k) == {p[1] : p \in In(k)}
      Avg(k, F(_)) == IF Cs(k) = {} THEN <<0, 1>> ELSE <<SumFun([c \in Cs(k) |-> F(L[c])], Cs(k)), Cardinality(Cs(k))>>
      Ok(i) == LET k == lo + i - 1
                   b == r.rows[i]
               IN  /\ b.ts + 28800 = k * r.size /\ b.n = Cardinality(In(k)) /\ b.cases = Cardinality(Cs(k))
                   /\ b.acts = Cardinality({L[p[1]].ev[p[2]].a : p \in In(k)})
                   /\ b.res = Cardinality({L[p[1]].ev[p[2]].r : p \in {q \in In(k) : Has(L[q[1]].ev[q[2]], "r")}})
      Same(x, y) == x[1] * y[2] = y[1] * x[2]
  IN [buckets |-> Len(r.rows) = Max(B) - lo + 1,
      counts |-> \A i \in DOMAIN r.rows : Ok(i),
      arrival |-> \A i \in DOMAIN r.rows : Same(r.rows[i].arr, Avg(lo + i - 1, LAMBDA c : Gap(L, c, "arr"))),
      finish |-> \A i \in DOMAIN r.rows : Same(r.rows[i].fin, Avg(lo + i - 1, LAMBDA c : Gap(L, c, "fin"))),
      service |-> \A i \in DOMAIN r.rows : Same(r.rows[i].serv, Avg(lo + i - 1, Serv)),
      sojourn |-> \A i \in DOMAIN r.rows : Same(r.rows[i].soj, Avg(lo + i - 1, Soj)),
      waiting |-> \A i \in DOMAIN r.rows : Same(r.rows[i].wait, Avg(lo + i - 1, LAMBDA c : Soj(c) - Serv(c)))]
\* ---- index of the event in its case, in the column of its activity
Position(r) ==
  [rows_kept |-> MapSeq(r.rows, LAMBDA x : <<x.id, x.a, x.t>>) = MapSeq(r.order, LAMBDA p : <<r.log[p[1]].id, r.log[p[1]].ev[p[2]].a, r.log[p[1]].ev[p[2]].t>>),
   columns |-> Range(r.cols) = Activities(r.log) /\ NoDup(r.cols),
   position |-> \A i \in DOMAIN r.rows : r.rows[i].pos = [x \in DOMAIN r.cols |-> IF r.cols[x] = r.rows[i].a THEN r.order[i][2] - 1 ELSE -1]]
Check(r) ==
  CASE r.op = "fea" -> Exactly(r, Chosen(r)) [] r.op = "auto" -> Exactly(r, AutoChoice(r.log)) [] r.op = "extra" -> Exactly(r, Chosen(r) \cup Extra(r.log))
    [] r.op = "feadf" -> Exactly(r, DfChosen(r)) [] r.op = "autodf" -> Exactly(r, DfAuto(r))
    [] r.op = "eb" -> EventBased(r) [] r.op = "target" -> Target(r) [] r.op = "rates" -> Rates(r) [] r.op = "temporal" -> Temporal(r) [] r.op = "pos" -> Position(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
