---- MODULE TrC42 ----
\* C42: structural metrics and helpers of Petri nets; lower bounds by the marking equation
EXTENDS Tk, Nets
VARIABLE l
P(net) == DOMAIN net.im
T(net) == DOMAIN net.t
In(net, t) == {p \in P(net) : net.t[t].pre[p] > 0}
Out(net, t) == {p \in P(net) : net.t[t].post[p] > 0}
Cons(net, p) == {t \in T(net) : net.t[t].pre[p] > 0}
Prod(net, p) == {t \in T(net) : net.t[t].post[p] > 0}
NArcs(net) == SumFun([t \in T(net) |-> Cardinality(In(net, t)) + Cardinality(Out(net, t))], T(net))
\* ---- simplicity
ArcDegree(net, k) ==
  LET N == Cardinality(P(net)) + Cardinality(T(net))
      a == 2 * NArcs(net)
  IN  IF a > k * N THEN <<N, N + a - k * N>> ELSE <<1, 1>>
Simp(r) ==
  [arc_degree |-> RatEq(r.v, ArcDegree(r.net, r.k)),
   arc_degree_default |-> RatEq(r.v2, ArcDegree(r.net, 2)),
   extended_cardoso |-> r.card = SumFun([p \in P(r.net) |-> Cardinality({Out(r.net, t) : t \in Cons(r.net, p)})], P(r.net)),
   input_untouched |-> r.same]
RECURSIVE Forward(_, _)
Forward(E, S) == LET n == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF n = S THEN S ELSE Forward(E, n)
Cyc(r) ==
  LET R == Reach(r.net, r.net.im)
      E == UNION {{<<m, n>> : n \in Succs(r.net, m)} : m \in R}
      parallel == \E m \in R : Cardinality(EnabledSet(r.net, m)) # Cardinality(Succs(r.net, m))
      F == [m \in R |-> Forward(E, {m})]
      sccs == {{n \in F[m] : m \in F[n]} : m \in R}
  IN  [extended_cyclomatic |-> parallel \/ r.v = Cardinality(E) - Cardinality(R) + Cardinality(sccs), input_untouched |-> r.same]
\* ---- maximal decomposition: classes of places, silent and duplicate-labelled transitions
Linked(net) == {t \in T(net) : net.t[t].lab = "" \/ \E u \in T(net) : u # t /\ net.t[u].lab = net.t[t].lab}
Edges(net) ==
  {<<<<"p", x[1]>>, <<"t", x[2]>>>> : x \in {y \in P(net) \X Linked(net) : y[1] \in In(net, y[2]) \cup Out(net, y[2])}}
  \cup {<<<<"t", x[1]>>, <<"t", x[2]>>>> : x \in {y \in Linked(net) \X Linked(net) : y[1] # y[2] /\ net.t[y[1]].lab = net.t[y[2]].lab /\ net.t[y[1]].lab # ""}}
Sym(E) == E \cup {<<e[2], e[1]>> : e \in E}
Classes(net) == LET E == Sym(Edges(net)) IN {Forward(E, {x}) : x \in {<<"p", p>> : p \in P(net)} \cup {<<"t", t>> : t \in Linked(net)}}
CompOf(net, C) ==
  LET pl == {x[2] : x \in {y \in C : y[1] = "p"}}
      tr == {x[2] : x \in {y \in C : y[1] = "t"}} \cup UNION {Cons(net, p) \cup Prod(net, p) : p \in pl}
  IN  [p |-> pl, t |-> tr,
       pre |-> {<<x[1], x[2], net.t[x[2]].pre[x[1]]>> : x \in {y \in pl \X tr : y[1] \in In(net, y[2])}},
       post |-> {<<x[1], x[2], net.t[x[2]].post[x[1]]>> : x \in {y \in pl \X tr : y[1] \in Out(net, y[2])}},
       im |-> {<<p, net.im[p]>> : p \in {q \in pl : net.im[q] > 0}}, fm |-> {<<p, net.fm[p]>> : p \in {q \in pl : net.fm[q] > 0}}]
Given(net, c) == [p |-> Range(c.p), t |-> Range(c.t), pre |-> Range(c.pre), post |-> Range(c.post), im |-> Range(c.im), fm |-> Range(c.fm)]
Decomp(r) ==
  LET net == r.net
      touched == {t \in T(net) : In(net, t) \cup Out(net, t) # {}}
      G == {Given(net, r.comps[i]) : i \in DOMAIN r.comps}
      whole == CompOf(net, {<<"p", p>> : p \in P(net)} \cup {<<"t", t>> : t \in Linked(net)})
  IN  [components |-> G = {CompOf(net, C) : C \in Classes(net)},
       once |-> Cardinality(G) = Len(r.comps),
       no_duplicate_nodes |-> \A i \in DOMAIN r.comps : LET c == r.comps[i] IN NoDup(c.p) /\ NoDup(c.t) /\ NoDup(c.pre) /\ NoDup(c.post) /\ c.ok,
       labels |-> \A i \in DOMAIN r.comps : \A x \in Range(r.comps[i].lab) : net.t[x[1]].lab = x[2],
       merged_back |-> Given(net, r.merged) = whole,
       merged_well_formed |-> r.merged.ok /\ NoDup(r.merged.p) /\ NoDup(r.merged.t) /\ \A x \in Range(r.merged.lab) : net.t[x[1]].lab = x[2],
       input_untouched |-> r.same]
Mark(r) == [marking |-> r.out = r.v, places_of_the_net |-> r.places, kind |-> r.kind = "Marking", input_untouched |-> r.same]
\* ---- generalization: 1 - sum (1/sqrt(occ), 1 if unused) / |T|, in units of 1/(10000 |T|)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Inv(n) == IF n = 0 THEN 10000 ELSE Root(100000000 \div n, 0, 10000)
Gen(r) ==
  LET n == Len(r.occ) IN
  [generalization |-> Abs(r.v - (10000 * n - SumSeq([i \in 1..n |-> Inv(r.occ[i])]))) <= n + 2, input_untouched |-> r.same]
Dir(a, b) == IF a + b = 0 THEN <<0, 1>> ELSE <<b - a, a + b>>
Row(x, a, b) == x[1] = a /\ x[2] = b /\ x[3] = a + b /\ RatEq(x[4], Dir(a, b))
Usage(r) ==
  [transitions |-> \A i \in DOMAIN r.t : Row(r.t[i], r.occ[1][i], r.occ[2][i]),
   places |-> \A i \in DOMAIN r.p : Row(r.p[i], r.pocc[1][i], r.pocc[2][i]),
   labels |-> r.lab = r.exp,
   arcs_like_their_transition |-> r.arcs,
   every_element |-> r.n = Len(r.t) + Len(r.p) + r.narcs,
   input_untouched |-> r.same]
\* ---- marking equation
Feasible(net, hi) == {x \in [T(net) -> 0..hi] : \A p \in P(net) : net.im[p] + SumFun([t \in T(net) |-> x[t] * (net.t[t].post[p] - net.t[t].pre[p])], T(net)) = net.fm[p]}
Cost(x, c) == SumFun([t \in DOMAIN x |-> x[t] * c[t]], DOMAIN x)
IsSM(net) == SumSeq(net.im) = 1 /\ SumSeq(net.fm) = 1 /\ \A t \in T(net) : SumSeq(net.t[t].pre) = 1 /\ SumSeq(net.t[t].post) = 1
Reachable(net) == net.fm \in Reach(net, net.im)
Meq(r) ==
  LET net == r.net
      F == Feasible(net, IF Len(net.t) <= 5 THEN 2 ELSE 1)
      run == IF Reachable(net) THEN OptCost(net, <<>>, <<>>, r.costs, r.costs) ELSE -1
  IN  [below_every_solution |-> \A x \in F : r.h >= 0 /\ r.h <= Cost(x, r.costs),
       below_the_cheapest_run |-> run >= 0 => r.h >= 0 /\ r.h <= run,
       exact_on_state_machines |-> IsSM(net) /\ run >= 0 => r.h = run,
       not_negative |-> r.h >= -1,
       input_untouched |-> r.same]
\* ---- synchronous product of the trace net (places 0..n, [0, i]) and the net (places [1, p]); moves <<i, t>>, 0 for >>
Sync(r) ==
  LET net == r.net
      n == Len(r.w)
      lpre(i) == IF i = 0 THEN {} ELSE {<<0, i, 1>>}
      lpost(i) == IF i = 0 THEN {} ELSE {<<0, i + 1, 1>>}
      mpre(t) == IF t = 0 THEN {} ELSE {<<1, p, net.t[t].pre[p]>> : p \in In(net, t)}
      mpost(t) == IF t = 0 THEN {} ELSE {<<1, p, net.t[t].post[p]>> : p \in Out(net, t)}
      moves == {<<i, 0>> : i \in 1..n} \cup {<<0, t>> : t \in T(net)} \cup {x \in (1..n) \X T(net) : r.w[x[1]] = net.t[x[2]].lab}
      llab(i) == IF i = 0 THEN ">>" ELSE r.w[i]
      mlab(t) == IF t = 0 THEN ">>" ELSE net.t[t].lab
      mc == [t \in T(net) |-> IF net.t[t].lab = "" THEN 1 ELSE 10000]
      opt == IF Reachable(net) THEN OptCost(net, r.w, [i \in 1..n |-> 10000], mc, [t \in T(net) |-> 0]) ELSE -1
  IN  [places |-> Range(r.sp) = {<<0, i>> : i \in 1..(n + 1)} \cup {<<1, p>> : p \in P(net)} /\ NoDup(r.sp),
       moves |-> {x.id : x \in Range(r.st)} = moves /\ Len(r.st) = Cardinality(moves),
       arcs |-> \A x \in Range(r.st) : Range(x.pre) = lpre(x.id[1]) \cup mpre(x.id[2]) /\ Range(x.post) = lpost(x.id[1]) \cup mpost(x.id[2]),
       labels |-> \A x \in Range(r.st) : x.lab = <<llab(x.id[1]), mlab(x.id[2])>>,
       markings |-> /\ Range(r.im) = {<<0, 1, 1>>} \cup {<<1, p, net.im[p]>> : p \in {q \in P(net) : net.im[q] > 0}}
                    /\ Range(r.fm) = {<<0, n + 1, 1>>} \cup {<<1, p, net.fm[p]>> : p \in {q \in P(net) : net.fm[q] > 0}},
       well_formed |-> r.ok,
       marking_equation_below_alignment |-> opt >= 0 => r.h >= 0 /\ r.h <= opt,
       extended_below_alignment |-> opt >= 0 /\ r.e > -2 => r.e >= 0 /\ r.e <= opt,
       extended_not_below_basic |-> opt >= 0 /\ r.e > -2 => r.e + 1 >= r.h,
       input_untouched |-> r.same]
Check(r) ==
  CASE r.op = "simp" -> Simp(r) [] r.op = "cyc" -> Cyc(r) [] r.op = "decomp" -> Decomp(r) [] r.op = "mark" -> Mark(r)
    [] r.op = "gen" -> Gen(r) [] r.op = "usage" -> Usage(r) [] r.op = "meq" -> Meq(r) [] r.op = "sync" -> Sync(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
