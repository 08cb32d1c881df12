---- MODULE Batches ----
(* Batches: the events of one activity and resource that overlap or follow each other within a distance d.
   Events are records with start s and completion t. *)
EXTENDS Tk
Gap(x, y) == Max2(x.s, y.s) - Min2(x.t, y.t)
Near(x, y, d) == Gap(x, y) <= d
RECURSIVE Grow(_, _, _)
Grow(E, g, d) == LET h == g \cup {x \in E : \E y \in g : Near(x, y, d)} IN IF h = g THEN g ELSE Grow(E, h, d)
RECURSIVE Groups(_, _)
\* the groups of events connected by nearness
Groups(E, d) == IF E = {} THEN {} ELSE LET g == Grow(E, {CHOOSE x \in E : TRUE}, d) IN {g} \cup Groups(E \ g, d)
Hull(g) == [s |-> SetMin({x.s : x \in g}), t |-> SetMax({x.t : x \in g})]
Kinds == <<"Simultaneous", "Batching on Start", "Batching on End", "Sequential batching", "Concurrent batching">>
InTurn(g) == LET q == SortSeq(SetToSeqAny(g), LAMBDA x, y : x.s < y.s \/ (x.s = y.s /\ x.t < y.t)) IN \A i \in 1..(Len(q) - 1) : q[i].t = q[i + 1].s
Kind(g) ==
  LET S == {x.s : x \in g}  T == {x.t : x \in g}
  IN  CASE Cardinality(S) = 1 /\ Cardinality(T) = 1 -> "Simultaneous"
        [] Cardinality(S) = 1 -> "Batching on Start"
        [] Cardinality(T) = 1 -> "Batching on End"
        [] InTurn(g) -> "Sequential batching"
        [] OTHER -> "Concurrent batching"
====
