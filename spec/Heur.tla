---- MODULE Heur ----
(* The heuristics miner: from directly-follows counts to a dependency graph     *)
(* with input and output bindings (a causal net), and from there to a Petri net *)
(* whose tokens are the obligations of the causal net.                          *)
(* Activities are positive integers (in the order of their names).              *)
EXTENDS Logs, Models

\* number of times in a set of triples <<a, b, n>> (0 when absent)
N(D, a, b) == LET S == {x \in D : x[1] = a /\ x[2] = b} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[3]
In2(D, a, b) == \E x \in D : x[1] = a /\ x[2] = b
Occ(A, a) == LET S == {x \in A : x[1] = a} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[2]
Ge(q, t) == q[1] * t[2] >= t[1] * q[2]
Gt(q, t) == q[1] * t[2] > t[1] * q[2]
MaxCount(D, a) == LET S == {x[3] : x \in {y \in D : y[1] = a \/ y[2] = a}} IN IF S = {} THEN 0 ELSE SetMax(S)
CleanOf(D, t) == IF t[1] = 0 THEN D ELSE {x \in D : x[3] * t[2] >= t[1] * Min2(MaxCount(D, x[1]), MaxCount(D, x[2]))}
DepOf(D, a, b) == IF a = b THEN <<N(D, a, a), N(D, a, a) + 1>> ELSE <<N(D, a, b) - N(D, b, a), N(D, a, b) + N(D, b, a) + 1>>
OutC(C, a) == {x[2] : x \in {y \in C : y[1] = a}}
InC(C, a) == {x[1] : x \in {y \in C : y[2] = a}}
Couples(S) == {x \in S \X S : x[1] < x[2]}

\* the classic miner; p: thresholds dep, and, l2 (rationals), clean, minact, mindfg; f: counts D (directly follows), A (occurrences), T (triples), sa, ea
Classic(f, p) ==
  LET D == CleanOf(f.D, p.clean)
      enough(a) == Occ(f.A, a) >= p.minact
      C == {<<x[1], x[2]>> : x \in {y \in D : enough(y[1]) /\ enough(y[2]) /\ y[3] >= p.mindfg /\ Ge(DepOf(D, y[1], y[2]), p.dep)}}
      V == {x[1] : x \in C} \cup {x[2] : x \in C}
      AO(a) == {<<a, x[1], x[2], <<N(D, x[1], x[2]) + N(D, x[2], x[1]), N(D, a, x[1]) + N(D, a, x[2]) + 1>>>> : x \in Couples(OutC(C, a))}
      AI(a) == {<<a, x[1], x[2], <<N(D, x[1], x[2]) + N(D, x[2], x[1]), N(D, x[1], a) + N(D, x[2], a) + 1>>>> : x \in Couples(InC(C, a))}
      Aba(a, b) == LET S == {x \in f.T : x[1] = a /\ x[2] = b /\ x[3] = a} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[4]
      L2(a) == {b \in {x[2] : x \in {y \in f.T : y[1] = a /\ y[3] = a /\ y[2] # a}} : Ge(<<Aba(a, b) + Aba(b, a), Aba(a, b) + Aba(b, a) + 1>>, p.l2)}
      dependent(a, b) == In2(D, a, b) /\ Ge(DepOf(D, a, b), p.dep)
      New == {x \in UNION {{<<a, b>> : b \in L2(a)} : a \in V} :
                In2(D, x[1], x[2]) /\ N(D, x[1], x[2]) >= p.mindfg /\ enough(x[1]) /\ enough(x[2]) /\ ~ dependent(x[1], x[2]) /\ ~ dependent(x[2], x[1])}
      L == New \cup {<<x[2], x[1]>> : x \in New}
      W == V \cup {x[1] : x \in L}
  IN [D |-> D, V |-> IF W = {} THEN {x[1] : x \in f.A} ELSE W, C |-> C, L |-> L,
      dep |-> {<<x[1], x[2], Norm(DepOf(D, x[1], x[2]))>> : x \in D},
      andout |-> {<<x[1], x[2], x[3], Norm(x[4])>> : x \in {y \in UNION {AO(a) : a \in V} : Ge(y[4], p.and)}},
      andin |-> {<<x[1], x[2], x[3], Norm(x[4])>> : x \in {y \in UNION {AI(a) : a \in V} : Ge(y[4], p.and)}},
      sa |-> {x[1] : x \in f.sa}, ea |-> {x[1] : x \in f.ea}]

\* the ++ miner: follows counts over intervals, f.conc: <<a, b, n>> with a <= b, number of overlaps
PlusPlus(f, p) ==
  LET A == {x \in f.A : x[2] >= p.minact}
      act == {x[1] : x \in A}
      D == {x \in f.D : x[3] >= p.mindfg /\ x[1] \in act /\ x[2] \in act}
      K(a, b) == N(f.conc, Min2(a, b), Max2(a, b))
      dep(a, b) == <<N(D, a, b) - N(D, b, a), N(D, a, b) + N(D, b, a) + K(a, b)>>
      C == {<<x[1], x[2]>> : x \in {y \in D : Gt(dep(y[1], y[2]), p.dep)}}
      AO(a) == {<<a, x[1], x[2], <<N(D, x[1], x[2]) + N(D, x[2], x[1]) + K(x[1], x[2]), N(D, a, x[1]) + N(D, a, x[2])>>>> : x \in Couples(OutC(C, a))}
      AI(a) == {<<a, x[1], x[2], <<N(D, x[1], x[2]) + N(D, x[2], x[1]) + K(x[1], x[2]), N(D, x[1], a) + N(D, x[2], a)>>>> : x \in Couples(InC(C, a))}
  IN [D |-> D, V |-> act, C |-> C, L |-> {},
      dep |-> {<<x[1], x[2], Norm(dep(x[1], x[2]))>> : x \in D},
      andout |-> {<<x[1], x[2], x[3], Norm(x[4])>> : x \in {y \in UNION {AO(a) : a \in act} : Gt(y[4], p.and)}},
      andin |-> {<<x[1], x[2], x[3], Norm(x[4])>> : x \in {y \in UNION {AI(a) : a \in act} : Gt(y[4], p.and)}},
      sa |-> {x[1] : x \in f.sa} \cap act, ea |-> {x[1] : x \in f.ea} \cap act]

\* bindings: the maximal sets of pairwise concurrent partners, and every partner that is concurrent with none; the start (0) and the end (0) on their own
Bindings(S, P) ==
  LET conc(a, b) == <<Min2(a, b), Max2(a, b)>> \in P
      K == {T \in SUBSET S : T # {} /\ \A a, b \in T : a # b => conc(a, b)}
  IN  {T \in K : ~ \E U \in K : U # T /\ T \subseteq U}
Inputs(H, a) ==
  LET B == Bindings(InC(H.C \cup H.L, a), {<<x[2], x[3]>> : x \in {y \in H.andin : y[1] = a}}) \cup (IF a \in H.sa THEN {{0}} ELSE {})
  IN  IF B = {} THEN {{}} ELSE B
Outputs(H, a) ==
  LET B == Bindings(OutC(H.C \cup H.L, a), {<<x[2], x[3]>> : x \in {y \in H.andout : y[1] = a}}) \cup (IF a \in H.ea THEN {{0}} ELSE {})
  IN  IF B = {} THEN {{}} ELSE B
\* the causal net as a Petri net: one place per obligation, one transition per activity and pair of bindings; name(a) is the label
CausalNet(H, name(_)) ==
  LET O == SetToSeqAny(H.C \cup H.L \cup {<<0, a>> : a \in {0}} \cup {<<-1, 0>>})       \* <<0, 0>>: source, <<-1, 0>>: sink
      src(x, a) == IF x = 0 THEN <<0, 0>> ELSE <<x, a>>
      tgt(a, y) == IF y = 0 THEN <<-1, 0>> ELSE <<a, y>>
      one(b) == IF b THEN 1 ELSE 0
      tr == UNION {{<<a, I, U>> : I \in Inputs(H, a), U \in Outputs(H, a)} : a \in H.V}
      ts == SetToSeqAny(tr)
  IN [t |-> [k \in DOMAIN ts |-> [lab |-> name(ts[k][1]),
                                  pre |-> [i \in DOMAIN O |-> one(O[i] \in {src(x, ts[k][1]) : x \in ts[k][2]})],
                                  post |-> [i \in DOMAIN O |-> one(O[i] \in {tgt(ts[k][1], y) : y \in ts[k][3]})]]],
      im |-> [i \in DOMAIN O |-> one(O[i] = <<0, 0>>)],
      fm |-> [i \in DOMAIN O |-> one(O[i] = <<-1, 0>>)]]
\* the words that can be fired, complete or not, up to length k
RECURSIVE FireFix(_, _, _, _)
FireFix(net, k, front, acc) ==
  IF k = 0 \/ front = {} THEN acc
  ELSE LET nx == {y \in {<<Append(x[1], a), NetStep(net, x[2], a)>> : x \in front, a \in Labels(net)} : y[2] # {}}
       IN  FireFix(net, k - 1, nx, acc \cup {x[1] : x \in nx})
Fireable(net, k) == FireFix(net, k, {<<<<>>, NetInit(net)>>}, {})
====
