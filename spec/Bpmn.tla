--------------------------------- MODULE Bpmn ----------------------------------
(* Token semantics of BPMN diagrams (start/end events, tasks, intermediate       *)
(* events, exclusive and parallel gateways) as an accepting net: one place per   *)
(* sequence flow, one before every start event and one after the end events.     *)
(* A diagram is [n |-> <<[ty, lab]>>, f |-> <<<<source, target>>>>], ty one of    *)
(* "start", "end", "task", "xor", "and".                                         *)
EXTENDS Integers, Sequences, FiniteSets

BIn(b, i) == {k \in DOMAIN b.f : b.f[k][2] = i}
BOut(b, i) == {k \in DOMAIN b.f : b.f[k][1] = i}
BPlaces(b) == Len(b.f) + 2
\* places: flows 1..Len(f), then the start place and the end place
BVec(b, S) == [p \in 1..BPlaces(b) |-> IF p \in S THEN 1 ELSE 0]
BTr(b, lab, I, O) == [lab |-> lab, pre |-> BVec(b, I), post |-> BVec(b, O)]

\* the transitions of node i: every task/event and exclusive gateway takes one token from one incoming flow and
\* gives one to one outgoing flow, a parallel gateway takes all and gives all
BNode(b, i) ==
  LET n == b.n[i]
      I == IF n.ty = "start" THEN {Len(b.f) + 1} ELSE BIn(b, i)
      O == IF n.ty = "end" THEN {Len(b.f) + 2} ELSE BOut(b, i)
      lab == IF n.ty = "task" THEN n.lab ELSE ""
  IN IF n.ty = "and" THEN {BTr(b, "", I, O)}
     ELSE {BTr(b, lab, {x}, {y}) : x \in I, y \in O}

RECURSIVE BSeq(_)
BSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o BSeq(S \ {x})
\* equal transitions of different nodes count once: the language does not change
BpmnNet(b) == [t |-> BSeq(UNION {BNode(b, i) : i \in DOMAIN b.n}), im |-> BVec(b, {Len(b.f) + 1}), fm |-> BVec(b, {Len(b.f) + 2})]

\* well-formedness of a diagram that represents one block-structured process
BpmnWellFormed(b) ==
  /\ Cardinality({i \in DOMAIN b.n : b.n[i].ty = "start"}) = 1
  /\ Cardinality({i \in DOMAIN b.n : b.n[i].ty = "end"}) = 1
  /\ \A i \in DOMAIN b.n : /\ (b.n[i].ty = "start") = (BIn(b, i) = {})
                           /\ (b.n[i].ty = "end") = (BOut(b, i) = {})
                           /\ b.n[i].ty = "task" => Cardinality(BIn(b, i)) = 1 /\ Cardinality(BOut(b, i)) = 1
================================================================================
