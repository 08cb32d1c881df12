---- MODULE Alpha ----
(* The alpha algorithm over a directly-follows relation D and a causality C.  *)
EXTENDS Logs
Follows(w) == {<<x[1], x[2]>> : x \in Dfg(w)}
Causal(D) == {p \in D : <<p[2], p[1]>> \notin D}
\* sets of pairwise unrelated activities (an activity that follows itself is related to itself)
Unrelated(T, D) == {S \in SUBSET T : S # {} /\ \A a, b \in S : <<a, b>> \notin D}
Pairs(T, D, C) == LET U == Unrelated(T, D) IN {p \in U \X U : p[1] \X p[2] \subseteq C}
Maximal(X) == {p \in X : ~ \E q \in X : q # p /\ p[1] \subseteq q[1] /\ p[2] \subseteq q[2]}
\* alpha+: short loops
Triangle(w) == {<<x[1], x[2]>> : x \in {y \in Triples(w) : y[1] = y[3]}}
Square(w) == {p \in Triangle(w) : <<p[2], p[1]>> \in Triangle(w)}
CausalPlus(w) == LET D == Follows(w) IN {p \in D : <<p[2], p[1]>> \notin D \/ p \in Square(w)}
LoopOne(w) == {x[1] : x \in {y \in Dfg(w) : y[1] = y[2]}}
====
