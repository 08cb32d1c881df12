---- MODULE Sound ----
(* Workflow nets and soundness, as defined on the token game. *)
EXTENDS Nets
\* nodes: <<"p", i>> and <<"t", j>>
Nodes(net) == {<<"p", i>> : i \in DOMAIN net.im} \cup {<<"t", j>> : j \in DOMAIN net.t}
Edge(net, x, y) == \/ x[1] = "p" /\ y[1] = "t" /\ net.t[y[2]].pre[x[2]] > 0
                   \/ x[1] = "t" /\ y[1] = "p" /\ net.t[x[2]].post[y[2]] > 0
RECURSIVE Fwd(_, _)
Fwd(net, S) == LET n == {y \in Nodes(net) : \E x \in S : Edge(net, x, y)} IN IF n \subseteq S THEN S ELSE Fwd(net, S \cup n)
RECURSIVE Bwd(_, _)
Bwd(net, S) == LET n == {y \in Nodes(net) : \E x \in S : Edge(net, y, x)} IN IF n \subseteq S THEN S ELSE Bwd(net, S \cup n)
Sources(net) == {p \in DOMAIN net.im : \A j \in DOMAIN net.t : net.t[j].post[p] = 0}
Sinks(net) == {p \in DOMAIN net.im : \A j \in DOMAIN net.t : net.t[j].pre[p] = 0}
IsWF(net) == /\ Cardinality(Sources(net)) = 1
             /\ Cardinality(Sinks(net)) = 1
             /\ Fwd(net, {<<"p", CHOOSE p \in Sources(net) : TRUE>>}) = Nodes(net)
             /\ Bwd(net, {<<"p", CHOOSE p \in Sinks(net) : TRUE>>}) = Nodes(net)
Unit(net, p) == [q \in DOMAIN net.im |-> IF q = p THEN 1 ELSE 0]
WFMarked(net) == /\ \A p \in Sources(net) : net.im = Unit(net, p)
                 /\ \A p \in Sinks(net) : net.fm = Unit(net, p)

Above(m, n) == m # n /\ \A p \in DOMAIN m : m[p] >= n[p]
RECURSIVE Within(_, _, _, _)
\* markings of S reachable from front through S
Within(net, S, front, seen) == LET new == ((UNION {Succs(net, m) : m \in front}) \cap S) \ seen
                               IN IF new = {} THEN seen ELSE Within(net, S, new, seen \cup new)

\* verdict: "sound", "unsound" or "unknown" (exploration was cut and nothing definite was found)
SoundVerdict(net, cap) ==
  IF ~ IsWF(net) THEN "unsound"
  ELSE IF ~ WFMarked(net) THEN "unknown"
  ELSE LET e == Explore(net, cap)
           R == e[1]
       IN  IF \E m \in R : Above(m, net.fm) THEN "unsound"
           ELSE IF e[2]
                THEN IF /\ net.fm \in R
                        /\ CanReach(net, R, {net.fm}) = R
                        /\ \A j \in DOMAIN net.t : net.t[j].lab # "" => \E m \in R : Enabled(net.t[j], m)
                     THEN IF \A j \in DOMAIN net.t : \E m \in R : Enabled(net.t[j], m) THEN "sound" ELSE "silent_dead"
                     ELSE "unsound"
                ELSE IF \E m \in R : \E n \in Within(net, R, {m}, {m}) : Above(n, m) THEN "unsound" ELSE "unknown"
====
