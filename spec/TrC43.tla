---- MODULE TrC43 ----
(* Directly-follows graphs as relations.  r.g = [n (activities 1..n), e (edges <<a,b,count>>), sa, ea, ac (<<activity,count>>)]. *)
(* r.out has the same shape: the graph a filter answered with.                                                                  *)
EXTENDS Tk
VARIABLE l
E(g) == {<<x[1], x[2]>> : x \in Range(g.e)}
N1(s) == {x[1] : x \in Range(s)}
S(g) == N1(g.sa)
T(g) == N1(g.ea)
A(g) == N1(g.ac)
RECURSIVE Clo(_, _, _)
\* nodes reachable from the set F (F included) over the edges X, staying inside V
Clo(F, X, V) == LET G == {x[2] : x \in {y \in X : y[1] \in F /\ y[2] \in V}} \ F IN IF G = {} THEN F ELSE Clo(F \union G, X, V)
Inv(X) == {<<x[2], x[1]>> : x \in X}
Fwd(g) == Clo(S(g) \intersect A(g), E(g), A(g))
Bwd(g) == Clo(T(g) \intersect A(g), Inv(E(g)), A(g))
Onpath(g) == Fwd(g) \intersect Bwd(g)
After(X, V, a) == Clo({x[2] : x \in {y \in X : y[1] = a /\ y[2] \in V}}, X, V)   \* reachable in at least one step
Restr(g, V) == [n |-> g.n, e |-> SelectSeq(g.e, LAMBDA x : x[1] \in V /\ x[2] \in V), sa |-> SelectSeq(g.sa, LAMBDA x : x[1] \in V),
                ea |-> SelectSeq(g.ea, LAMBDA x : x[1] \in V), ac |-> SelectSeq(g.ac, LAMBDA x : x[1] \in V)]
SameG(g, h) == Range(g.e) = Range(h.e) /\ Range(g.sa) = Range(h.sa) /\ Range(g.ea) = Range(h.ea) /\ Range(g.ac) = Range(h.ac)
SubG(g, h) == Range(g.e) \subseteq Range(h.e) /\ Range(g.sa) \subseteq Range(h.sa) /\ Range(g.ea) \subseteq Range(h.ea) /\ Range(g.ac) \subseteq Range(h.ac)
CeilDiv(a, b) == IF a <= 0 THEN 0 ELSE (a + b - 1) \div b
\* links: the edges, the starts and the ends, with their weights (start = activity 0, end = activity n+1)
Links(g) == {<<x[1], x[2], x[3]>> : x \in Range(g.e)} \union {<<0, x[1], x[2]>> : x \in Range(g.sa)} \union {<<x[1], g.n + 1, x[2]>> : x \in Range(g.ea)}
\* is each activity of M on a path from the start (0) to the end (n+1) of the links X?
Conn(X, n, M) == LET P == {<<x[1], x[2]>> : x \in X} V == 0..(n + 1) IN M \subseteq Clo({0}, P, V) /\ M \subseteq Clo({n + 1}, Inv(P), V)
\* the k-th largest weight of a set of items whose last component is the weight
W(x) == x[Len(x)]
Above(X, w) == Cardinality({x \in X : W(x) > w})
Kth(X, k) == CHOOSE w \in {W(x) : x \in X} : Above(X, w) < k /\ Cardinality({x \in X : W(x) >= w}) >= k
ActsOf(X, n) == {a \in UNION {{x[1], x[2]} : x \in X} : a \in 1..n}
\* dependency of an edge as a fraction
W2(g, a, b) == IF <<a, b>> \in E(g) THEN (CHOOSE x \in Range(g.e) : x[1] = a /\ x[2] = b)[3] ELSE 0
Dep(g, x) == <<W2(g, x[1], x[2]) - W2(g, x[2], x[1]), W2(g, x[1], x[2]) + W2(g, x[2], x[1]) + 1>>
\* ---- the removal procedure, one element at a time, from the least to the most important -----------------------
Distinct(X) == Cardinality({W(x) : x \in X}) = Cardinality(X)
LeastOf(X) == CHOOSE x \in X : \A y \in X : W(x) <= W(y)
RECURSIVE GreedyActs(_, _, _, _)
GreedyActs(g, V, C, M) == IF C = {} THEN V ELSE
  LET c == LeastOf(C)
      h == Restr(g, V \ {c[1]})
  IN  GreedyActs(g, IF Len(h.e) > 0 /\ Conn(Links(h), g.n, M) THEN V \ {c[1]} ELSE V, C \ {c}, M)
RECURSIVE GreedyLinks(_, _, _, _)
\* C: <<from, to, importance>>
GreedyLinks(n, X, C, M) == IF C = {} THEN X ELSE
  LET c == LeastOf(C)
      Y == {x \in X : ~ (x[1] = c[1] /\ x[2] = c[2])}
      e == {x \in X : x[1] # 0 /\ x[2] # n + 1}
  IN  GreedyLinks(n, IF Cardinality(e) > 1 /\ Conn(Y, n, M) THEN Y ELSE X, C \ {c}, M)
Live(n, X) == LET P == {<<x[1], x[2]>> : x \in X} V == 0..(n + 1) IN Clo({0}, P, V) \intersect Clo({n + 1}, Inv(P), V)
\* ---- filters -------------------------------------------------------------------------------------------------
Trivial(g) == Len(g.ac) <= 1 \/ Len(g.e) <= 1
ActPct(r) ==
  LET g == r.g
      o == r.out
      k == CeilDiv((Len(g.ac) - 1) * r.p, 8) + 1
      X == Range(g.ac)
      w == Kth(X, k)
      sure == {x[1] : x \in {y \in X : W(y) > w}}
      wide == {x[1] : x \in {y \in X : W(y) >= w}}
      drop(V, a) == LET h == Restr(g, V \ {a}) IN Len(h.e) > 0 /\ Conn(Links(h), g.n, wide)
  IN  [restriction |-> SameG(o, Restr(g, A(o))),
       most_frequent_kept |-> sure \subseteq A(o) /\ Cardinality(A(o) \intersect wide) >= k,
       connected |-> A(o) = Onpath(o),
       minimal |-> \A a \in A(o) \ wide : ~ drop(A(o), a),
       least_frequent_first |-> Distinct({x \in X : W(x) <= w}) => LET V == GreedyActs(g, A(g), {x \in X : W(x) < w}, sure \union wide)
                                                                  h == Restr(g, V) IN A(o) = Onpath(h)]
PathPct(r, must, wide, rest) ==   \* rest: the links that may go, with their importance; must: links that have to stay; wide: links that may be among the kept ones
  LET g == r.g
      o == r.out
      M == IF r.all THEN A(g) ELSE ActsOf(wide, g.n)
  IN  [subgraph |-> SubG(o, g),
       kept_links |-> must \subseteq Links(o),
       activities_kept |-> r.all => Range(o.ac) = Range(g.ac),
       connected |-> A(o) = Onpath(o) /\ \A x \in Links(o) : x[1] \in A(o) \union {0} /\ x[2] \in A(o) \union {g.n + 1},
       minimal |-> Len(o.e) > 1 => \A x \in Links(o) \ wide : ~ Conn(Links(o) \ {x}, g.n, M),
       least_important_first |-> (must = wide /\ Distinct(rest)) => LET X == GreedyLinks(g.n, Links(g), rest, M) V == Live(g.n, X)
                                                                  IN Links(o) = {x \in X : x[1] \in V /\ x[2] \in V}]
\* ---- checks --------------------------------------------------------------------------------------------------
Out(g, a) == {<<x[2], x[3]>> : x \in {y \in Range(g.e) : y[1] = a}}
In(g, a) == {<<x[1], x[3]>> : x \in {y \in Range(g.e) : y[2] = a}}
RECURSIVE SumW(_)
SumW(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN W(x) + SumW(X \ {x})
Vx(g) == UNION {{x[1], x[2]} : x \in Range(g.e)} \union S(g) \union T(g)
Ve(g) == UNION {{x[1], x[2]} : x \in Range(g.e)}
Exactly(s, X) == NoDup(s) /\ Range(s) = X
Map(s, D, F(_)) == NoDup([i \in DOMAIN s |-> s[i][1]]) /\ {s[i][1] : i \in DOMAIN s} = D /\ \A i \in DOMAIN s : Range(s[i][2]) = F(s[i][1])
MaxOr(X) == IF X = {} THEN -1 ELSE SetMax(X)
Comps(g, V) == LET X == E(g) \union Inv(E(g)) IN {Clo({a}, X, V) : a \in V}
Check(r) ==
  LET g == r.g
      u == r.u
      all == 1..g.n
  IN
  CASE r.op = "act" -> (IF Trivial(g) THEN [untouched |-> SameG(r.out, g)] ELSE ActPct(r)) @@ [inputs_untouched |-> r.same]
    [] r.op = "path" ->
       (IF Trivial(g) THEN [untouched |-> SameG(r.out, g)]
        ELSE LET X == Links(g)
                 k == CeilDiv((Cardinality(X) - 1) * r.p, 8) + 1
                 w == Kth(X, k)
             IN  PathPct(r, IF Cardinality({x \in X : W(x) = w}) = 1 THEN {x \in X : W(x) >= w} ELSE {x \in X : W(x) > w}, {x \in X : W(x) >= w}, {x \in X : W(x) < w})) @@ [inputs_untouched |-> r.same]
    [] r.op = "conn" ->
       (IF Trivial(g) THEN [untouched |-> SameG(r.out, g)]
        ELSE LET X == Links(g)
                 term == {x \in X : x[1] = 0 \/ x[2] = g.n + 1}
                 must == {x \in X \ term : x[1] # x[2] /\ Dep(g, x)[1] * 16 >= r.p * Dep(g, x)[2]} \union (IF r.p <= 16 THEN term ELSE {})
             IN  PathPct(r, must, must \union {x \in X : x[1] = x[2]},
                         {<<x[1], x[2], (10000 * Dep(g, x)[1]) \div Dep(g, x)[2]>> : x \in X \ (must \union term)} \union (IF r.p > 16 THEN {<<x[1], x[2], 10000>> : x \in term} ELSE {}))) @@ [inputs_untouched |-> r.same]
    [] r.op = "to" ->
       LET X == {x \in E(g) : x[1] # r.a}
           V == (Clo(S(g), X, all) \intersect Clo({r.a}, Inv(X), all)) \union {r.a}
       IN  [to_activity |-> /\ Range(r.out.ac) = {x \in Range(g.ac) : x[1] \in V}
                            /\ Range(r.out.e) = {x \in Range(g.e) : <<x[1], x[2]>> \in X /\ x[1] \in V /\ x[2] \in V}
                            /\ Range(r.out.sa) = {x \in Range(g.sa) : x[1] \in V}
                            /\ Range(r.out.ea) = {x \in Range(g.ac) : x[1] = r.a},
            inputs_untouched |-> r.same]
    [] r.op = "from" ->
       LET X == {x \in E(g) : x[2] # r.a}
           V == (Clo(T(g), Inv(X), all) \intersect Clo({r.a}, X, all)) \union {r.a}
       IN  [from_activity |-> /\ Range(r.out.ac) = {x \in Range(g.ac) : x[1] \in V}
                              /\ Range(r.out.e) = {x \in Range(g.e) : <<x[1], x[2]>> \in X /\ x[1] \in V /\ x[2] \in V}
                              /\ Range(r.out.ea) = {x \in Range(g.ea) : x[1] \in V}
                              /\ Range(r.out.sa) = {x \in Range(g.ac) : x[1] = r.a},
            inputs_untouched |-> r.same]
    [] r.op = "contain" ->
       LET P == Clo({r.a}, Inv(E(g)), all)
           Q == Clo({r.a}, E(g), all)
           V == P \union Q
       IN  [containing_activity |-> /\ Range(r.out.ac) = {x \in Range(g.ac) : x[1] \in V}
                                    /\ Range(r.out.e) = {x \in Range(g.e) : x[1] \in V /\ x[2] \in V}
                                    /\ Range(r.out.sa) = {x \in Range(g.sa) : x[1] \in P}
                                    /\ Range(r.out.ea) = {x \in Range(g.ea) : x[1] \in Q},
            inputs_untouched |-> r.same]
    [] r.op = "clean" ->
       LET mx(a) == MaxOr({W(x) : x \in Out(g, a) \union In(g, a)})
       IN  [noise_cleaned |-> Exactly(r.rep, {x \in Range(g.e) : <<x[1], x[2]>> \in Range(r.common) \/ 8 * x[3] >= r.p * Min2(mx(x[1]), mx(x[2]))}),
            inputs_untouched |-> r.same]
    [] r.op = "variants" ->
       LET V == Range(r.w)
           pr == UNION {{<<v, i>> : i \in 1..(Len(v) - 1)} : v \in V}
       IN  [variant_dfg |-> /\ Range(r.out.e) = {<<a, b, Cardinality({x \in pr : x[1][x[2]] = a /\ x[1][x[2] + 1] = b})>> : a \in all, b \in all} \ {<<a, b, 0>> : a \in all, b \in all}
                            /\ Range(r.out.sa) = {<<a, Cardinality({v \in V : v # <<>> /\ v[1] = a})>> : a \in all} \ {<<a, 0>> : a \in all}
                            /\ Range(r.out.ea) = {<<a, Cardinality({v \in V : v # <<>> /\ v[Len(v)] = a})>> : a \in all} \ {<<a, 0>> : a \in all}
                            /\ Exactly(r.acts, UNION {Range(v) : v \in V})]
    [] r.op = "obj" ->
       [vertices |-> Exactly(u.vertices, Vx(g)),
        outgoing |-> Map(u.out, Vx(g), LAMBDA a : Out(g, a)), incoming |-> Map(u.inc, Vx(g), LAMBDA a : In(g, a)),
        source_vertices |-> Exactly(u.src, {a \in Vx(g) : In(g, a) = {}}), sink_vertices |-> Exactly(u.snk, {a \in Vx(g) : Out(g, a) = {}}),
        transitive_pre |-> Map(u.pre, Vx(g), LAMBDA a : After(Inv(E(g)), all, a) \ {a}), transitive_post |-> Map(u.post, Vx(g), LAMBDA a : After(E(g), all, a) \ {a}),
        vertex_frequencies |-> Exactly(u.freq, {<<a, SumW(In(g, a)) + SumW({x \in Range(g.sa) : x[1] = a})>> : a \in Vx(g)}),
        nx_graph |-> Exactly(u.nx[1], Vx(g)) /\ Exactly(u.nx[2], E(g)), edges |-> Exactly(u.edges, E(g)),
        unpacked |-> u.iter, inputs_untouched |-> r.same]
    [] r.op = "util" ->
       LET NoIn == {a \in Ve(g) : In(g, a) = {}}
           NoOut == {a \in Ve(g) : Out(g, a) = {}}
           L == Range(r.list)
           sum(a) == LET i == SumW(In(g, a)) o == SumW(Out(g, a)) IN IF In(g, a) # {} /\ Out(g, a) # {} THEN (i + o) \div 2 ELSE i + o
       IN
       [outgoing |-> Map(u.out, {a \in Ve(g) : Out(g, a) # {}}, LAMBDA a : Out(g, a)), ingoing |-> Map(u.inc, {a \in Ve(g) : In(g, a) # {}}, LAMBDA a : In(g, a)),
        inferred |-> Exactly(u.isa, NoIn) /\ Exactly(u.iea, NoOut),
        activities |-> u.acts = SortedSeq(Ve(g)),
        activity_max |-> u.max = [a \in all |-> MaxOr({W(x) : x \in Out(g, a) \union In(g, a)})],
        maxima |-> u.maxall = MaxOr({SumW(In(g, a)) : a \in Ve(g)} \union {SumW(Out(g, a)) : a \in Ve(g)})
                   /\ u.maxsome = MaxOr({SumW(In(g, a)) : a \in {b \in L : In(g, b) # {}}} \union {SumW(Out(g, a)) : a \in {b \in L : Out(g, b) # {}}}),
        sums |-> u.sumstart = SumW({x \in Range(g.e) : x[1] \in NoIn}) /\ u.sumend = SumW({x \in Range(g.e) : x[2] \in NoOut}),
        activity_sums |-> u.sumact = SumFun([a \in L |-> sum(a)], L) /\ u.sumact2 = SumFun([a \in L |-> SumW(In(g, a)) + SumW(Out(g, a))], L),
        self_loops |-> Exactly(u.loops, {a \in Ve(g) : <<a, a>> \in E(g)}),
        matrix |-> u.mat = [i \in 1..Cardinality(Ve(g)) |-> [j \in 1..Cardinality(Ve(g)) |-> W2(g, SortedSeq(Ve(g))[i], SortedSeq(Ve(g))[j])]],
        direction |-> \A i \in DOMAIN u.dir : LET a == u.dir[i][1] i0 == SumW(In(g, a)) o0 == SumW(Out(g, a)) IN RatEq(u.dir[i][2], <<o0 - i0, i0 + o0 + 1>>),
        dirlist |-> SameBag(u.dir, u.dirlist) /\ {x[1] : x \in Range(u.dir)} = L /\ \A i \in 1..(Len(u.dirlist) - 1) : u.dirlist[i][2][1] * u.dirlist[i + 1][2][2] >= u.dirlist[i + 1][2][1] * u.dirlist[i][2][2],
        components |-> LET c == [i \in DOMAIN u.comp |-> Range(u.comp[i])] IN Exactly(c, Comps(g, Ve(g) \union L)),
        inputs_untouched |-> r.same]
       @@ (IF r.aslist THEN
       [projected |-> Exactly(u.proj, {x \in Range(g.e) : x[1] \in L /\ x[2] \in L}),
        negated |-> Exactly(u.neg, {x \in Range(g.e) : <<x[2], x[1]>> \notin E(g)}),
        entered |-> Range(u.entered) = {x[2] : x \in {y \in E(g) : y[1] \notin L /\ y[2] \in L}} /\ Range(u.left) = {x[1] : x \in {y \in E(g) : y[1] \in L /\ y[2] \notin L}},
        outside |-> LET st == {x[2] : x \in {y \in E(g) : y[1] \notin L /\ y[2] \in L}}
                        O == {x[1] : x \in {y \in E(g) : y[1] \notin L /\ y[2] \in st}}
                        en == {x[1] : x \in {y \in E(g) : y[1] \in L /\ y[2] \notin L}}
                        I == {x[2] : x \in {y \in E(g) : y[2] \notin L /\ y[1] \in en}}
                    IN  /\ Range(u.outs) = {x[2] : x \in {y \in E(g) : y[1] \in O /\ y[2] \notin L}} \ O
                        /\ Range(u.ins) = {x[1] : x \in {y \in E(g) : y[2] \in I /\ y[1] \notin L}} \ I,
        neighbours |-> \A a \in all : Range(u.nexts[a]) = {x[1] : x \in Out(g, a)} /\ Range(u.prevs[a]) = {x[1] : x \in In(g, a)}]
        ELSE
       [successors |-> Map(u.succ, all, LAMBDA a : After(E(g), all, a)), predecessors |-> Map(u.pred, all, LAMBDA a : After(Inv(E(g)), all, a)),
        transitive |-> Map(u.tpost, all, LAMBDA a : After(E(g), all, a)) /\ Map(u.tpre, all, LAMBDA a : After(Inv(E(g)), all, a)),
        alphabet |-> Exactly(u.alpha, Ve(g))])
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
