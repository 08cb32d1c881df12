---- MODULE TrC41 ----
\* C41: feature tables of object-centric logs.  A feature vector is a set of <<name, value>>, values are rationals <<n, d>>.
EXTENDS Ocel
VARIABLE l
I(n) == <<n, 1>>
B(b) == I(IF b THEN 1 ELSE 0)
Acts(L) == {x.a : x \in Range(L.ev)}
Types(L) == {x.ty : x \in Range(L.ob)}
EvIdx(L, e) == CHOOSE i \in DOMAIN L.ev : L.ev[i].id = e
TypeOf(L, o) == ObOf(L, o).ty
Alive(L) == RelOb(L)
FirstOf(L, o) == Life(L, o)[1]
LastOf(L, o) == LET f == Life(L, o) IN f[Len(f)]
\* ------------------------------------------------------------------ graphs over objects
Adj(L, o) == Together(L, o) \ {o}
Desc(L, o) == {p \in Alive(L) \ {o} : LET e == FirstOf(L, p) IN o \in ObjsOf(L, e) /\ EvIdx(L, FirstOf(L, o)) < EvIdx(L, e)}
Inh0(L, o) == {p \in Alive(L) \ {o} : o \in Alive(L) /\ LastOf(L, o) = FirstOf(L, p)}
Inh(L, o) == {p \in Inh0(L, o) : o \notin Inh0(L, p)}
Cobirth(L, o) == {p \in Alive(L) \ {o} : o \in Alive(L) /\ FirstOf(L, p) = FirstOf(L, o)}
Codeath(L, o) == {p \in Alive(L) \ {o} : o \in Alive(L) /\ LastOf(L, p) = LastOf(L, o)}
GraphOf(L, g, o) ==
  CASE g = "object_interaction_graph" -> Adj(L, o) [] g = "object_descendants_graph" -> IF o \in Alive(L) THEN Desc(L, o) ELSE {}
    [] g = "object_inheritance_graph" -> Inh(L, o) [] g = "object_cobirth_graph" -> Cobirth(L, o) [] g = "object_codeath_graph" -> Codeath(L, o)
Cnt(S) == I(Cardinality(S))
\* ------------------------------------------------------------------ calendar (days since 1970-01-01; Monday = 0)
Civil(d) ==
  LET z == d + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
  IN  [day |-> doy - (153 * mp + 2) \div 5 + 1, month |-> IF mp < 10 THEN mp + 3 ELSE mp - 9]
\* ------------------------------------------------------------------ objects
Lif(L, o) == LET f == Life(L, o) IN [i \in DOMAIN f |-> EvOf(L, f[i]).a]
Paths(L) == UNION {LET f == Lif(L, o) IN {<<f[i], f[i + 1]>> : i \in 1..(Len(f) - 1)} : o \in Alive(L)}
Start(L, o) == EvOf(L, FirstOf(L, o)).t
End(L, o) == EvOf(L, LastOf(L, o)).t
ObjFeat(r, L, o, on) ==
  LET f == Lif(L, o)
      live == o \in Alive(L)
      has(x) == x \in on
      N == {p \in ObIds(L) : Adj(L, p) # {}}
      num == {i \in DOMAIN r.onum : r.onum[i][1] = o}
  IN  (IF has("lifecycle_length") THEN {<<"@@object_lifecycle_length", I(Len(f))>>} ELSE {})
      \cup (IF has("lifecycle_unq_act") THEN {<<"@@object_lifecycle_unq_act", Cnt(Range(f))>>} ELSE {})
      \cup (IF has("lifecycle_duration") THEN
              {<<"@@object_lifecycle_duration", I(IF live THEN End(L, o) - Start(L, o) ELSE 0)>>,
               <<"@@object_lifecycle_start_timestamp", I(IF live THEN r.base + Start(L, o) ELSE 0)>>,
               <<"@@object_lifecycle_end_timestamp", I(IF live THEN r.base + End(L, o) ELSE 0)>>} ELSE {})
      \cup (IF has("lifecycle_activities") THEN {<<"@@ocel_lif_activity_" \o a, I(Count(f, a))>> : a \in Acts(L)} ELSE {})
      \cup (IF has("lifecycle_paths") THEN {<<"@@ocel_lif_path_" \o p[1] \o "##" \o p[2], Cnt({i \in 1..(Len(f) - 1) : f[i] = p[1] /\ f[i + 1] = p[2]})>> : p \in Paths(L)} ELSE {})
      \cup (IF has("degree_centrality") THEN {<<"@@object_degree_centrality", IF Adj(L, o) = {} THEN I(0) ELSE Norm(<<Cardinality(Adj(L, o)), Cardinality(N) - 1>>)>>} ELSE {})
      \cup (IF has("general_interaction_graph") THEN {<<"@@object_general_interaction_graph", Cnt(Adj(L, o))>>} ELSE {})
      \cup (IF has("general_descendants_graph") THEN
              {<<"@@object_general_descendants_graph_ascendants", Cnt({p \in Alive(L) : live /\ o \in Desc(L, p)})>>,
               <<"@@object_general_descendants_graph_descendants", IF live THEN Cnt(Desc(L, o)) ELSE I(0)>>} ELSE {})
      \cup (IF has("general_inheritance_graph") THEN
              {<<"@@object_general_inheritance_graph_ascendants", Cnt({p \in Alive(L) : live /\ o \in Inh(L, p)})>>,
               <<"@@object_general_inheritance_graph_descendants", IF live THEN Cnt(Inh(L, o)) ELSE I(0)>>} ELSE {})
      \cup (IF has("cobirth_graph") THEN {<<"@@object_cobirth", Cnt(Cobirth(L, o))>>} ELSE {})
      \cup (IF has("codeath_graph") THEN {<<"@@object_codeath", Cnt(Codeath(L, o))>>} ELSE {})
      \cup (IF has("str_attributes") THEN {<<"@@object_attr_value_y_" \o v, B(AttrOf(ObOf(L, o), "y") = v)>> : v \in {AttrOf(x, "y") : x \in Range(L.ob)} \ {""}} ELSE {})
      \cup (IF has("num_attributes") THEN {<<"@@event_num_m", I(IF num = {} THEN 0 ELSE r.onum[CHOOSE i \in num : TRUE][2])>>} ELSE {})
      \cup (IF has("interaction_graph_ot") THEN {<<"@@object_interaction_graph_" \o ty, Cnt({p \in Adj(L, o) : TypeOf(L, p) = ty})>> : ty \in Types(L)} ELSE {})
      \cup (IF has("work_in_progress") THEN {<<"@@object_wip", Cnt({p \in Alive(L) : live /\ Start(L, p) <= End(L, o) /\ End(L, p) >= Start(L, o)})>>} ELSE {})
\* ------------------------------------------------------------------ events
PairsOf(L, e) == {{x[1], x[2]} : x \in {p \in ObjsOf(L, e) \X ObjsOf(L, e) : p[1] # p[2]}}
EvFeat(r, L, e, on) ==
  LET x == EvOf(L, e)
      k == EvIdx(L, e)
      has(f) == f \in on
      loc == r.base + x.t + 3600 * r.tz
      c == Civil(loc \div 86400)
      num == {i \in DOMAIN r.enum : r.enum[i][1] = e}
      old == UNION {PairsOf(L, L.ev[i].id) : i \in 1..(k - 1)}
  IN  (IF has("activity") THEN {<<"@@event_act_" \o a, B(x.a = a)>> : a \in Acts(L)} ELSE {})
      \cup (IF has("timestamp") THEN {<<"@@event_timestamp", I(r.base + x.t)>>, <<"@@event_timestamp_dayofweek", I(((loc \div 86400) + 3) % 7)>>, <<"@@event_timestamp_hour", I((loc % 86400) \div 3600)>>,
                                      <<"@@event_timestamp_month", I(c.month)>>, <<"@@event_timestamp_day", I(c.day)>>} ELSE {})
      \cup (IF has("num_rel_objs") THEN {<<"@@event_num_rel_objs", Cnt(ObjsOf(L, e))>>} ELSE {})
      \cup (IF has("num_rel_objs_type") THEN {<<"@@event_num_rel_objs_type_" \o ty, Cnt({o \in ObjsOf(L, e) : TypeOf(L, o) = ty})>> : ty \in Types(L)} ELSE {})
      \cup (IF has("str_attributes") THEN {<<"@@event_attr_value_x_" \o v, B(AttrOf(x, "x") = v)>> : v \in {AttrOf(y, "x") : y \in Range(L.ev)} \ {""}} ELSE {})
      \cup (IF has("num_attributes") THEN {<<"@@event_num_n", I(IF num = {} THEN 0 ELSE r.enum[CHOOSE i \in num : TRUE][2])>>} ELSE {})
      \cup (IF has("start_ot") THEN {<<"@@event_start_" \o ty, B(\E o \in ObjsOf(L, e) : TypeOf(L, o) = ty /\ FirstOf(L, o) = e)>> : ty \in Types(L)} ELSE {})
      \cup (IF has("end_ot") THEN {<<"@@event_end_" \o ty, B(\E o \in ObjsOf(L, e) : TypeOf(L, o) = ty /\ LastOf(L, o) = e)>> : ty \in Types(L)} ELSE {})
      \cup (IF has("new") THEN {<<"@@ev_new_interactions", Cnt(PairsOf(L, e) \ old)>>} ELSE {})
\* ------------------------------------------------------------------ aggregation over related elements: S is a set of feature vectors with the names of F
Val(V, n) == (CHOOSE x \in V : x[1] = n)[2]
MinR(S) == CHOOSE x \in S : \A y \in S : RatLe(x, y)
MaxR(S) == CHOOSE x \in S : \A y \in S : RatLe(y, x)
MinMax(S, names, pre) ==
  UNION {{<<pre \o "min_" \o n, IF S = {} THEN I(0) ELSE MinR({Val(V, n) : V \in S})>>, <<pre \o "max_" \o n, IF S = {} THEN I(0) ELSE MaxR({Val(V, n) : V \in S})>>} : n \in names}
Names(V) == {x[1] : x \in V}
Default == {"lifecycle_length", "lifecycle_duration", "lifecycle_activities", "lifecycle_unq_act", "degree_centrality", "general_interaction_graph", "general_descendants_graph",
            "general_inheritance_graph", "cobirth_graph", "codeath_graph", "interaction_graph_ot"}
RowOf(r, i) == {<<r.names[j], r.rows[i][j]>> : j \in DOMAIN r.names}
Shape(r) == Len(r.rows) = Len(r.ids) /\ NoDup(r.names) /\ \A i \in DOMAIN r.rows : Len(r.rows[i]) = Len(r.names)
Nested(r) ==
  LET L == r.w
      evn == Names(EvFeat(r, L, L.ev[1].id, Range(r.ev)))
      OF == [o \in ObIds(L) |-> ObjFeat(r, L, o, Range(r.obj))]
      EF == [e \in EvIds(L) |-> EvFeat(r, L, e, Range(r.ev))]
      DF == [o \in ObIds(L) |-> IF r.nest = "graph" THEN ObjFeat(r, L, o, Default) ELSE {}]
      lastOf(o, a) == {e \in EvsOf(L, o) : EvOf(L, e).a = a /\ \A f \in EvsOf(L, o) : EvOf(L, f).a = a => EvIdx(L, f) <= EvIdx(L, e)}
  IN  [i \in DOMAIN r.ids |->
        LET o == r.ids[i] IN
        CASE r.nest = "events" -> OF[o] \cup MinMax({EF[e] : e \in EvsOf(L, o)}, evn, "@@rel_eve_")
          [] r.nest = "activities" -> OF[o] \cup {<<"@@ev_act_fea_" \o x[1] \o "_" \o x[2], IF lastOf(o, x[1]) = {} THEN I(0) ELSE Val(EF[CHOOSE e \in lastOf(o, x[1]) : TRUE], x[2])>> : x \in {z.a : z \in Range(L.rel)} \X evn}
          [] r.nest = "objects" -> EF[o] \cup MinMax({OF[p] : p \in ObjsOf(L, o)}, Names(OF[L.ob[1].id]), "@@rel_obj_fea_")
          [] r.nest = "graph" -> OF[o] \cup MinMax({DF[p] : p \in GraphOf(L, r.g, o)}, Names(DF[L.ob[1].id]), "@@obj_graph_con_")]
\* ------------------------------------------------------------------ pairs of event and object (one row per relation)
PairFeat(r, k) ==
  LET L == r.w
      x == L.rel[k]
      pre == FilterSeq(SubSeq(L.rel, 1, k - 1), LAMBDA y : y.o = x.o)
      base == EvFeat(r, L, x.e, {"activity", "timestamp"})
      acts == {y.a : y \in Range(L.rel)}
  IN  {f \in base : \A a \in Acts(L) \ acts : f[1] # "@@event_act_" \o a}
      \cup {<<"@@event_num_rel_objs_type_" \o ty, B(x.ty = ty)>> : ty \in Types(L)}
      \cup {<<"@@event_start_" \o ty, B(x.ty = ty /\ pre = <<>>)>> : ty \in Types(L)}
      \cup {<<"@@ev_obj_pref_length", I(Len(pre))>>, <<"@@ev_obj_pref_timediff", I(IF pre = <<>> THEN 0 ELSE x.t - pre[1].t)>>}
      \cup {<<"@@ev_obj_pref_act_" \o a, Cnt({i \in DOMAIN pre : pre[i].a = a})>> : a \in acts}
Check(r) ==
  LET L == r.w
      ok == Shape(r)
      E == CASE r.op \in {"obj", "api"} -> [i \in DOMAIN r.ids |-> ObjFeat(r, L, r.ids[i], Range(r.obj))]
             [] r.op = "ev" -> [i \in DOMAIN r.ids |-> EvFeat(r, L, r.ids[i], Range(r.ev))]
             [] r.op = "eo" -> [i \in DOMAIN r.ids |-> PairFeat(r, i)]
             [] r.op = "nested" -> Nested(r)
  IN  [shape |-> ok,
       features |-> ok => \A i \in DOMAIN E : {x[1] : x \in E[i]} = Range(r.names),
       values |-> ok => \A i \in DOMAIN E : RowOf(r, i) = E[i],
       identifiers |-> Has(r, "given") => r.given = r.ids,
       by_identifier |-> r.byid,
       input_untouched |-> r.same]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
