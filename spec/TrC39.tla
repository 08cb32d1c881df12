---- MODULE TrC39 ----
\* C39: nets with data (guards over variables), stochastic nets and nets with stochastic arc weights
EXTENDS Tk, Nets
VARIABLES l, net, m, d
vars == <<l, net, m, d>>
\* ---- guards: <<"num", variable, operator, twice the constant, declared>>, <<"str", variable, operator, constant, declared>>, <<"and", g, h>>, <<"or", g, h>>, <<"true">>
\* the value is "T", "F" or "E" (the guard cannot be evaluated); a missing declared variable has no value, an undeclared one does not exist
Cmp(a, op, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b [] op = "==" -> a = b [] op = "!=" -> a # b
TF(b) == IF b THEN "T" ELSE "F"
RECURSIVE Val(_, _)
Val(g, dd) ==
  CASE g[1] = "true" -> "T"
    [] g[1] \in {"num", "str"} ->
         IF Has(dd, g[2]) THEN TF(Cmp(IF g[1] = "num" THEN 2 * dd[g[2]] ELSE dd[g[2]], g[3], g[4]))
         ELSE IF ~g[5] \/ g[3] \notin {"==", "!="} THEN "E" ELSE TF(g[3] = "!=")
    [] g[1] = "and" -> LET a == Val(g[2], dd) IN IF a = "T" THEN Val(g[3], dd) ELSE a
    [] g[1] = "or" -> LET a == Val(g[2], dd) IN IF a = "F" THEN Val(g[3], dd) ELSE a
Merge(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN b THEN b[x] ELSE a[x]]
\* an empty record is written as an empty sequence
Rec(x) == IF DOMAIN x = {} THEN <<>> ELSE x
DEnabled(i, mk, dd) == Enabled(net.t[i], mk) /\ (net.guard[i] = <<>> \/ (~net.unsafe[i] /\ Val(net.guard[i], dd) = "T"))
Max0(x) == IF x > 0 THEN x ELSE 0
Data(r) ==
  LET dd == Merge(d, r.e)
      en == {i \in DOMAIN net.t : DEnabled(i, m, dd)}
      t == net.t[r.t]
      new == IF r.weak THEN [p \in DOMAIN m |-> Max0(m[p] - t.pre[p]) + t.post[p]] ELSE Fire(t, m)
      none == ~r.weak /\ r.t \notin en
  IN  [enabled |-> Range(r.en) = en /\ Range(r.en2) = en /\ Range(r.es) = en,
       disabled_returns_nothing |-> r.none = none,
       result_marking |-> (~none /\ ~r.none) => r.res = new,
       result_data |-> (~none /\ ~r.none) => Rec(r.data) = Rec(dd),
       input_unchanged |-> r.after = m /\ Rec(r.dafter) = Rec(d)]
\* guards written to and read from a file
Pnml(r) == [guards_kept |-> r.guard = r.guard2, variables_kept |-> [i \in DOMAIN r.vars |-> Range(r.vars[i])] = [i \in DOMAIN r.vars2 |-> Range(r.vars2[i])], same_net |-> r.same]
\* ---- stochastic nets
W(S) == SumFun([i \in S |-> net.w[i]], S)
Stoch(r) ==
  LET en == EnabledSet(net, m) IN
  [probability |-> \A i \in DOMAIN net.t : IF i \in en THEN RatEq(r.p[i], <<net.w[i], W(en)>>) ELSE r.p[i] = <<0, 1>>,
   foreign_has_no_probability |-> r.foreign = <<0, 1>>,
   sampled_transitions_are_enabled |-> Range(r.s) \subseteq en,
   same_seed_same_sample |-> r.s = r.s2,
   every_transition_can_be_sampled |-> (Len(r.s) >= 60 /\ \A i \in en : 8 * net.w[i] >= W(en)) => Range(r.s) = en]
\* ---- stochastic arc weights: pre[p] and post[p] are sequences of <<tokens, weight>>; empty when there is no arc
Opts(x) == {i \in DOMAIN x : x[i][2] > 0}
Arcs(t) == {<<"i", p>> : p \in {q \in DOMAIN t.pre : t.pre[q] # <<>>}} \cup {<<"o", p>> : p \in {q \in DOMAIN t.post : t.post[q] # <<>>}}
Dist(t, a) == IF a[1] = "i" THEN t.pre[a[2]] ELSE t.post[a[2]]
Bindings(t) == {f \in [Arcs(t) -> 1..3] : \A a \in Arcs(t) : f[a] \in Opts(Dist(t, a))}
Tok(t, f, a) == Dist(t, a)[f[a]][1]
BEnabled(t, f, mk) == \A a \in Arcs(t) : a[1] = "i" => Tok(t, f, a) <= mk[a[2]]
RECURSIVE Prod(_, _)
Prod(f, S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * Prod(f, S \ {x})
Prio(t, f) == Prod([a \in Arcs(t) |-> Dist(t, a)[f[a]][2]], Arcs(t))
EB(i) == {f \in Bindings(net.t[i]) : BEnabled(net.t[i], f, m)}
SEn == {i \in DOMAIN net.t : EB(i) # {}}
PrioSum(i) == SumFun([f \in EB(i) |-> Prio(net.t[i], f)], EB(i))
GlobalSum == SumFun([i \in SEn |-> net.w[i] * PrioSum(i)], SEn)
\* a binding as written by the driver: <<tokens taken from every place, tokens put>> (-1 without an arc)
Vec(t, f) == <<[p \in DOMAIN t.pre |-> IF <<"i", p>> \in Arcs(t) THEN Tok(t, f, <<"i", p>>) ELSE -1], [p \in DOMAIN t.post |-> IF <<"o", p>> \in Arcs(t) THEN Tok(t, f, <<"o", p>>) ELSE -1]>>
Saw(r) ==
  LET t == net.t[r.t]
      B == Bindings(t)
      en == SEn
      W0(S) == SumFun([i \in S |-> net.w[i]], S)
  IN [enabled |-> Range(r.en) = en,
      legal_bindings |-> Range(r.all) = {Vec(t, f) : f \in B} /\ NoDup(r.all),
      enabled_bindings |-> Range(r.some) = {Vec(t, f) : f \in EB(r.t)} /\ NoDup(r.some),
      binding_enabled |-> \A x \in Range(r.bs) : x.ok = (\E f \in EB(r.t) : Vec(t, f) = x.b),
      binding_priority |-> \A x \in Range(r.bs) : \A f \in B : Vec(t, f) = x.b => RatEq(x.prio, <<Prio(t, f), 1>>),
      global_binding_probability |-> \A x \in Range(r.bs) : \A f \in B : Vec(t, f) = x.b => IF x.ok THEN RatEq(x.g, <<net.w[r.t] * Prio(t, f), GlobalSum>>) ELSE x.g = <<0, 1>>,
      local_binding_probability |-> \A x \in Range(r.bs) : \A f \in B : (Vec(t, f) = x.b /\ x.ok) => RatEq(x.l, <<net.w[r.t] * Prio(t, f), W0(en) * PrioSum(r.t)>>),
      global_transition_probability |-> \A i \in DOMAIN net.t : IF i \in en THEN RatEq(r.pt[i], <<net.w[i] * PrioSum(i), GlobalSum>>) ELSE r.pt[i] = <<0, 1>>,
      local_transition_probability |-> \A i \in DOMAIN net.t : IF i \in en THEN RatEq(r.pl[i], <<net.w[i], W0(en)>>) ELSE r.pl[i] = <<0, 1>>,
      sampled_bindings_are_enabled |-> \A x \in Range(r.smp) : x[1] \in en /\ \E f \in EB(x[1]) : Vec(net.t[x[1]], f) = x[2],
      nothing_to_sample |-> (r.smp = <<>>) = (en = {}),
      fired |-> \A x \in Range(r.bs) : x.ok => x.res = [p \in DOMAIN m |-> m[p] - (IF x.b[1][p] = -1 THEN 0 ELSE x.b[1][p]) + (IF x.b[2][p] = -1 THEN 0 ELSE x.b[2][p])],
      input_unchanged |-> r.after = m]
Init == l = 1 /\ net = <<>> /\ m = <<>> /\ d = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l] IN
     CASE r.op = "exc" -> Report(l, ExcClause) /\ UNCHANGED <<net, m, d>>
       [] r.op = "net" -> net' = r.net /\ m' = r.net.im /\ d' = <<>>
       [] r.op = "data" -> Report(l, Data(r)) /\ m' = (IF r.adv THEN r.res ELSE m) /\ d' = (IF r.adv THEN r.data ELSE d) /\ UNCHANGED net
       [] r.op = "pnml" -> Report(l, Pnml(r)) /\ UNCHANGED <<net, m, d>>
       [] r.op = "stoch" -> Report(l, Stoch(r)) /\ m' = r.next /\ UNCHANGED <<net, d>>
       [] r.op = "saw" -> Report(l, Saw(r)) /\ m' = r.next /\ UNCHANGED <<net, d>>
Spec == Init /\ [][Next]_vars
====
