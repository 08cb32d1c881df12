---- MODULE MCBatches ----
\* merging the hulls of groups two at a time, in any order, ends in the groups connected by nearness
EXTENDS Batches
VARIABLES E, d, P
N == atoi(IOEnv.N)
Ev == {x \in [i : 1..N, s : 0..4, t : 0..4] : x.s <= x.t}
Pick(i) == {x \in Ev : x.i = i}
Init == /\ \E f \in [1..N -> {[s |-> a, t |-> b] : a \in 0..4, b \in 0..4}] :
              (\A i \in 1..N : f[i].s <= f[i].t) /\ E = {[i |-> i, s |-> f[i].s, t |-> f[i].t] : i \in 1..N}
        /\ d \in {0, 1} /\ P = {{x} : x \in E}
Can == {pq \in P \X P : pq[1] # pq[2] /\ Near(Hull(pq[1]), Hull(pq[2]), d)}
Next == \E pq \in Can : P' = (P \ {pq[1], pq[2]}) \cup {pq[1] \cup pq[2]} /\ UNCHANGED <<E, d>>
Spec == Init /\ [][Next]_<<E, d, P>>
Partition == UNION P = E /\ \A g, h \in P : g = h \/ g \cap h = {}
Inside == \A g \in P : \E h \in Groups(E, d) : g \subseteq h
EndsInTheGroups == Can = {} => P = Groups(E, d)
====
