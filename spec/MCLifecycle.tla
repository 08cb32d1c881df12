---- MODULE MCLifecycle ----
\* every short case over two activities, instances and non-decreasing times, read event by event
EXTENDS Lifecycle
VARIABLES ev, st
N == atoi(IOEnv.N)
Init == ev = <<>> /\ st = Begin
Now == IF ev = <<>> THEN 0 ELSE ev[Len(ev)].t
Next == /\ Len(ev) < N
        /\ \E a \in {"a", "b"}, i \in {"", "1"}, tr \in {"start", "complete", "schedule"}, d \in {0, 1} :
             /\ (a = "b" => i = "")
             /\ ev' = Append(ev, [a |-> a, inst |-> i, tr |-> tr, t |-> Now + d])
             /\ st' = Read(ev', st, Len(ev'))
Spec == Init /\ [][Next]_<<ev, st>>
Of(tr) == {i \in DOMAIN ev : ev[i].tr = tr}
Used == {st.out[k][2] : k \in DOMAIN st.out} \ {0}
EachCompletionOnce == [k \in DOMAIN st.out |-> st.out[k][1]] = SortSeq([k \in DOMAIN st.out |-> st.out[k][1]], LAMBDA x, y : x < y) /\ {st.out[k][1] : k \in DOMAIN st.out} = Of("complete")
EachStartAtMostOnce == Used \cap st.pend = {} /\ Used \cup st.pend = Of("start") /\ \A j, k \in DOMAIN st.out : j # k => st.out[j][2] = 0 \/ st.out[j][2] # st.out[k][2]
FirstInFirstOut == \A j, k \in DOMAIN st.out : LET x == st.out[j] y == st.out[k] IN (j < k /\ x[2] > 0 /\ y[2] > 0 /\ ev[x[1]].a = ev[y[1]].a /\ ev[x[1]].inst = ev[y[1]].inst) => x[2] < y[2]
Same(i, j) == ev[i].a = ev[j].a /\ ev[i].inst = ev[j].inst
UnpairedOnlyWithoutStart == \A k \in DOMAIN st.out : st.out[k][2] = 0 => ~ \E j \in st.pend : j < st.out[k][1] /\ Same(j, st.out[k][1])
IntervalsAreOrdered == LET q == Intervals(ev) IN \A i \in 1..(Len(q) - 1) : StartOf(ev, q[i]) <= StartOf(ev, q[i + 1])
\* splitting the intervals again and pairing gives intervals with the same starts and the same completions per activity
Iv == LET q == Intervals(ev) IN [i \in DOMAIN q |-> [a |-> ev[q[i][1]].a, inst |-> ev[q[i][1]].inst, s |-> StartOf(ev, q[i]), t |-> ev[q[i][1]].t]]
Back == LET h == Halves(Iv)
            e == [i \in DOMAIN h |-> [a |-> Iv[h[i][2]].a, inst |-> Iv[h[i][2]].inst, tr |-> IF h[i][3] = 0 THEN "start" ELSE "complete", t |-> h[i][1]]]
            q == Intervals(e)
        IN  [i \in DOMAIN q |-> [a |-> e[q[i][1]].a, inst |-> e[q[i][1]].inst, s |-> StartOf(e, q[i]), t |-> e[q[i][1]].t]]
RoundTrip == Len(Back) = Len(Iv) /\ \A a \in {"a", "b"}, i \in {"", "1"}, x \in 0..N :
               LET C(f, z) == Cardinality({k \in DOMAIN z : z[k].a = a /\ z[k].inst = i /\ f[k] = x}) IN
                 /\ C([k \in DOMAIN Iv |-> Iv[k].s], Iv) = C([k \in DOMAIN Back |-> Back[k].s], Back)
                 /\ C([k \in DOMAIN Iv |-> Iv[k].t], Iv) = C([k \in DOMAIN Back |-> Back[k].t], Back)
CycleIsTheUnion == \A i \in DOMAIN Iv : CycleTime(<<>>, Iv, i) = Measure({<<Iv[j].s, Iv[j].t>> : j \in 1..i})
====
