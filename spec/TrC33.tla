---- MODULE TrC33 ----
\* C33: organisational networks, roles, local diagnostics and resource profiles
\* r.l: cases, each a sequence of events <<activity, resource, group, time, start>>
EXTENDS Tk
VARIABLE l
Act(e) == e[1]
Res(e) == e[2]
Grp(e) == e[3]
Tm(e) == e[4]
Ev(r) == UNION {{<<c, i>> : i \in DOMAIN r.l[c]} : c \in DOMAIN r.l}
At(r, p) == r.l[p[1]][p[2]]
Resources(r) == {Res(At(r, p)) : p \in Ev(r)}
Acts2(r) == {Act(At(r, p)) : p \in Ev(r)}
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

\* ---- networks: a set of <<source, target>> pairs with their counts
\* normalised: every value divided by the greatest one; the graph keeps the connections of at least the threshold (1/2)
\* tot: what the values are shares of
Normed(r, tot) ==
  LET Num(x) == x[3][1] * (tot \div x[3][2])
      Max == CHOOSE v \in {Num(x) : x \in Range(r.net)} : \A x \in Range(r.net) : Num(x) <= v
      Strong == {<<x[1], x[2]>> : x \in {z \in Range(r.norm) : RatLe(<<1, 2>>, z[3])}}
  IN IF "norm" \notin DOMAIN r THEN TRUE
     ELSE IF r.net = <<>> THEN r.norm = <<>> /\ r.graph = <<>>
     ELSE /\ {<<x[1], x[2]>> : x \in Range(r.norm)} = {<<x[1], x[2]>> : x \in Range(r.net)} /\ NoDup(r.norm)
          /\ \A x \in Range(r.norm) : \A y \in Range(r.net) : x[1] = y[1] /\ x[2] = y[2] => x[3] = Norm(<<Num(y), Max>>)
          /\ {{e[1], e[2]} : e \in Range(r.graph)} = {{x[1], x[2]} : x \in Strong}
          /\ r.directed => Range(r.graph) = Strong
\* handover: pairs of events of a case, weighted beta^(distance - 1), beta = bn/bd (beta 0: directly following ones only)
HWeight(r, i, j) == IF r.bn = 0 THEN (IF j = i + 1 THEN 1 ELSE 0) ELSE Pow(r.bn, j - i - 1) * Pow(r.bd, r.maxlen - (j - i - 1))
HPairs(r) == UNION {{<<c, i, j>> : i, j \in DOMAIN r.l[c]} : c \in DOMAIN r.l}
HSel(r) == {p \in HPairs(r) : p[2] < p[3] /\ (r.bn # 0 \/ p[3] = p[2] + 1)}
HSum(r, S) == SumFun([p \in S |-> HWeight(r, p[2], p[3])], S)
HKey(r, p) == <<Res(r.l[p[1]][p[2]]), Res(r.l[p[1]][p[3]])>>
Handover(r) ==
  LET S == HSel(r)
      K == {HKey(r, p) : p \in S}
      tot == HSum(r, S)
  IN [pairs |-> {<<x[1], x[2]>> : x \in Range(r.net)} = K /\ NoDup(r.net),
      values |-> \A x \in Range(r.net) : x[3] = Norm(<<HSum(r, {p \in S : HKey(r, p) = <<x[1], x[2]>>}), tot>>),
      directed |-> r.directed, normalised |-> Normed(r, tot)]
Together(r) ==
  LET K == {k \in Resources(r) \X Resources(r) : k[1] # k[2] /\ \E c \in DOMAIN r.l : \E i, j \in DOMAIN r.l[c] : Res(r.l[c][i]) = k[1] /\ Res(r.l[c][j]) = k[2]}
      Shared(k) == Cardinality({c \in DOMAIN r.l : (\E i \in DOMAIN r.l[c] : Res(r.l[c][i]) = k[1]) /\ (\E i \in DOMAIN r.l[c] : Res(r.l[c][i]) = k[2])})
  IN [pairs |-> {<<x[1], x[2]>> : x \in Range(r.net)} = K /\ NoDup(r.net),
      values |-> \A x \in Range(r.net) : RatEq(x[3], <<Shared(<<x[1], x[2]>>), Len(r.l)>>),
      undirected |-> ~r.directed, normalised |-> Normed(r, Len(r.l))]
\* subcontracting: between two events of one resource at distance n in a case, every event in between counts
Sub(r) ==
  LET S == {p \in HPairs(r) : \E i \in DOMAIN r.l[p[1]] : /\ i + r.n \in DOMAIN r.l[p[1]] /\ Res(r.l[p[1]][i]) = Res(r.l[p[1]][i + r.n])
                                                         /\ p[2] = i /\ p[3] > i /\ p[3] < i + r.n}
      K == {HKey(r, p) : p \in S}
  IN [pairs |-> {<<x[1], x[2]>> : x \in Range(r.net)} = K /\ NoDup(r.net),
      values |-> \A x \in Range(r.net) : RatEq(x[3], <<Cardinality({p \in S : HKey(r, p) = <<x[1], x[2]>>}), Len(r.l)>>),
      directed |-> r.directed, normalised |-> Normed(r, Len(r.l))]
\* similarity: the correlation of the activity profiles; r.net carries sign and squared correlation in thousandths
RA(r, x, a) == Cardinality({p \in Ev(r) : Res(At(r, p)) = x /\ Act(At(r, p)) = a})
Cov(r, x, y) == LET A == Acts2(r) IN Cardinality(A) * SumFun([a \in A |-> RA(r, x, a) * RA(r, y, a)], A) - SumFun([a \in A |-> RA(r, x, a)], A) * SumFun([a \in A |-> RA(r, y, a)], A)
Similar(r) ==
  [pairs |-> {<<x[1], x[2]>> : x \in Range(r.net)} = {k \in Resources(r) \X Resources(r) : k[1] # k[2]} /\ NoDup(r.net),
   values |-> \A x \in Range(r.net) : LET c == Cov(r, x[1], x[2])
                                          v == Cov(r, x[1], x[1]) * Cov(r, x[2], x[2])
                                      IN IF v = 0 THEN x[4] = 2 ELSE /\ x[4] = (IF c > 0 THEN 1 ELSE IF c < 0 THEN -1 ELSE 0)
                                                                    /\ Abs(x[3] * v - 1000 * c * c) <= v,
   undirected |-> ~r.directed]

\* ---- network analysis: every event signals the first later event (times are distinct) whose incoming value is its outgoing value
NVal(r, p, col) == LET e == At(r, p) IN CASE col = "case" -> r.ids[p[1]] [] col = "act" -> Act(e) [] col = "res" -> Res(e) [] col = "grp" -> Grp(e)
Network(r) ==
  LET T(p) == Tm(At(r, p))
      Next2(p) == LET C == {q \in Ev(r) : T(q) > T(p) /\ NVal(r, q, r.incol) = NVal(r, p, r.outcol)}
                  IN IF C = {} THEN {} ELSE {q \in C : \A x \in C : T(q) <= T(x)}
      S == UNION {{<<p, q>> : q \in Next2(p)} : p \in Ev(r)}
      Key(x) == <<NVal(r, x[1], r.src), NVal(r, x[2], r.tgt), NVal(r, IF r.ref = "_out" THEN x[1] ELSE x[2], r.edge)>>
  IN [edges |-> {<<e[1], e[2], e[3]>> : e \in Range(r.edges)} = {Key(x) : x \in S} /\ NoDup(r.edges),
      values |-> \A e \in Range(r.edges) : LET Z == {x \in S : Key(x) = <<e[1], e[2], e[3]>>}
                                          IN IF r.perf THEN SameBag(e[4], MapSeq(SetToSeqAny(Z), LAMBDA x : T(x[2]) - T(x[1]))) ELSE e[4] = <<Cardinality(Z)>>]

\* ---- roles: repeatedly merge the two most similar groups of activities while the similarity exceeds the threshold
RoleCnt(r, R, x) == Cardinality({p \in Ev(r) : Act(At(r, p)) \in R /\ Res(At(r, p)) = x})
RoleTot(r, R) == Cardinality({p \in Ev(r) : Act(At(r, p)) \in R})
SimNum(r, P, Q) == SumFun([x \in Resources(r) |-> Min2(RoleCnt(r, P, x) * RoleTot(r, Q), RoleCnt(r, Q, x) * RoleTot(r, P))], Resources(r))
SimDen(r, P, Q) == SumFun([x \in Resources(r) |-> Max2(RoleCnt(r, P, x) * RoleTot(r, Q), RoleCnt(r, Q, x) * RoleTot(r, P))], Resources(r))
RECURSIVE Partitions(_, _)
Partitions(r, W) ==
  LET C == {pr \in W \X W : pr[1] # pr[2]}
      S == [pr \in C |-> <<SimNum(r, pr[1], pr[2]), SimDen(r, pr[1], pr[2])>>]
      best == {pr \in C : \A qr \in C : RatLe(S[qr], S[pr])}
      lim == <<r.thr[1], r.thr[2]>>
  IN IF C = {} THEN {W}
     ELSE LET b == S[CHOOSE pr \in best : TRUE]
              merged == UNION {Partitions(r, (W \ {pr[1], pr[2]}) \cup {pr[1] \cup pr[2]}) : pr \in best}
          IN IF RatEq(b, lim) THEN {W} \cup merged ELSE IF RatLe(b, lim) THEN {W} ELSE merged
Roles(r) ==
  [partition |-> {Range(x[1]) : x \in Range(r.roles)} \in Partitions(r, {{a} : a \in Acts2(r)}) /\ NoDup(r.roles),
   members |-> \A x \in Range(r.roles) : Range(x[2]) = {<<y, RoleCnt(r, Range(x[1]), y)>> : y \in {z \in Resources(r) : RoleCnt(r, Range(x[1]), z) > 0}}]

\* ---- local diagnostics of the groups
\* the groups of the log, or the given ones (roles, clusters): then all events of a member are its work for the group
Given(r) == r.groups # <<>>
Members(r, g) == IF Given(r) THEN Range((CHOOSE x \in Range(r.groups) : x[1] = g)[2]) ELSE {Res(At(r, p)) : p \in {q \in Ev(r) : Grp(At(r, q)) = g}}
NRes(r, X, A) == Cardinality({p \in Ev(r) : Res(At(r, p)) \in X /\ Act(At(r, p)) \in A})
Diagnostics(r) ==
  LET G == IF Given(r) THEN {x[1] : x \in Range(r.groups)} ELSE {Grp(At(r, p)) : p \in Ev(r)}
      A == Acts2(r)
      GR == {k \in G \X Resources(r) : k[2] \in Members(r, k[1])}
      NG(g, X) == Cardinality({p \in Ev(r) : (IF Given(r) THEN Res(At(r, p)) \in Members(r, g) ELSE Grp(At(r, p)) = g) /\ Res(At(r, p)) \in X})
  IN [focus |-> {<<x[1], x[2]>> : x \in Range(r.focus)} = G \X A /\ \A x \in Range(r.focus) : RatEq(x[3], <<NRes(r, Members(r, x[1]), {x[2]}), NRes(r, Resources(r), {x[2]})>>),
      stake |-> {<<x[1], x[2]>> : x \in Range(r.stake)} = G \X A /\ \A x \in Range(r.stake) : RatEq(x[3], <<NRes(r, Members(r, x[1]), {x[2]}), NRes(r, Members(r, x[1]), A)>>),
      coverage |-> {<<x[1], x[2]>> : x \in Range(r.coverage)} = GR /\ \A x \in Range(r.coverage) : RatEq(x[3], <<NG(x[1], {x[2]}), NG(x[1], Resources(r))>>),
      contribution |-> Range(r.contribution) = UNION {{<<k[1], k[2], a, NRes(r, {k[2]}, {a})>> : a \in {z \in A : NRes(r, {k[2]}, {z}) > 0}} : k \in GR}]

\* ---- resource profiles in the interval [t1, t2)
Profile(r) ==
  LET In(p) == Tm(At(r, p)) >= r.t1 /\ Tm(At(r, p)) < r.t2
      Mine(x) == {p \in Ev(r) : In(p) /\ Res(At(r, p)) = x}
      LastT(c) == Tm(r.l[c][Len(r.l[c])])
      Done == {c \in DOMAIN r.l : LastT(c) >= r.t1 /\ LastT(c) < r.t2}
      With(x) == {c \in DOMAIN r.l : \E i \in DOMAIN r.l[c] : Res(r.l[c][i]) = x}
      MineA == {p \in Mine(r.r1) : Act(At(r, p)) = r.a}
      Dur(p) == IF r.interval THEN Tm(At(r, p)) - At(r, p)[5] ELSE IF p[2] = 1 THEN 0 ELSE Tm(At(r, p)) - Tm(r.l[p[1]][p[2] - 1])
      DC == Done \cap With(r.r1)
      Active(c) == {Res(At(r, p)) : p \in {q \in Ev(r) : q[1] = c /\ In(q)}}
      AllActive == UNION {Active(c) : c \in DOMAIN r.l}
      Frac0(n, d) == IF d = 0 THEN <<0, 1>> ELSE <<n, d>>
      CaseDur(c) == LastT(c) - (IF r.interval /\ r.form = "df" THEN r.l[c][1][5] ELSE Tm(r.l[c][1]))
  IN [distinct |-> r.distinct = Cardinality({Act(At(r, p)) : p \in Mine(r.r1)}),
      frequency |-> RatEq(r.frequency, Frac0(Cardinality(MineA), Cardinality(Mine(r.r1)))),
      completions |-> r.completions = Cardinality(Mine(r.r1)),
      cases |-> r.cases = Cardinality(DC),
      fraction |-> RatEq(r.fraction, Frac0(Cardinality(DC), Cardinality(Done))),
      activity_duration |-> MineA = {} \/ RatEq(r.adur, <<SumFun([p \in MineA |-> Dur(p)], MineA), Cardinality(MineA)>>),
      case_duration |-> DC = {} \/ RatEq(r.cdur, <<SumFun([c \in DC |-> CaseDur(c)], DC), Cardinality(DC)>>),
      interaction |-> r.interaction = Cardinality(DC \cap With(r.r2)),
      social |-> RatEq(r.social, Frac0(Cardinality(UNION {Active(c) : c \in {d \in DOMAIN r.l : r.r1 \in Active(d)}}), Cardinality(AllActive)))]

\* ---- workload of a resource: the events of the resource running at the same time (no two have equal intervals)
Load(r) ==
  LET E == {p \in Ev(r) : Res(At(r, p)) = r.r1}
      S(p) == IF r.interval THEN At(r, p)[5] ELSE Tm(r.l[p[1]][Max2(1, p[2] - 1)])
      D(p) == Tm(At(r, p)) - S(p)
      W == [p \in E |-> Cardinality({q \in E : S(q) <= Tm(At(r, p)) /\ S(p) <= Tm(At(r, q))})]
      Run == {p \in E : S(p) < r.t2 /\ Tm(At(r, p)) >= r.t2}
      In == {p \in E : S(p) >= r.t1 /\ Tm(At(r, p)) <= r.t2}
      Avg(n, d) == IF d = 0 THEN <<0, 1>> ELSE <<n, d>>
  IN [workload |-> RatEq(r.workload, Avg(SumFun([p \in Run |-> W[p] * D(p)], Run), SumFun([p \in Run |-> D(p)], Run))),
      multitasking |-> RatEq(r.multi, Avg(SumFun([p \in In |-> IF W[p] > 1 THEN D(p) ELSE 0], In), SumFun([p \in In |-> D(p)], In)))]
Check(r) == CASE r.op = "handover" -> Handover(r) [] r.op = "together" -> Together(r) [] r.op = "sub" -> Sub(r) [] r.op = "similar" -> Similar(r)
              [] r.op = "network" -> Network(r) [] r.op = "roles" -> Roles(r) [] r.op = "diag" -> Diagnostics(r) [] r.op = "profile" -> Profile(r) [] r.op = "load" -> Load(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
