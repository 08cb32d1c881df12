---- MODULE MCAnonym ----
\* every small log, level by level
EXTENDS Anonym
VARIABLES ws, p, k, st, n
N == atoi(IOEnv.N)
Words == {<<"a">>, <<"b">>, <<"a", "b">>, <<"a", "a">>, <<"a", "b", "a">>, <<"b", "b", "b">>}
Init == ws \in UNION {[1..i -> Words] : i \in 1..N} /\ p \in 1..2 /\ k \in 1..4 /\ st = Start /\ n = 0
Next == n < k /\ st' = Level(ws, st, p, FALSE) /\ n' = n + 1 /\ UNCHANGED <<ws, p, k>>
Spec == Init /\ [][Next]_<<ws, p, k, st, n>>
LevelLength == \A w \in st.open : Len(w) = n
OnlyBehaviourOfTheLog == \A w \in st.open : w = <<>> \/ Begun(ws, w) >= p
FinishedAreShort == \A x \in st.done : Len(x[1]) < n
AllFrequentShortWords == st.done = {<<w, Whole(ws, w)>> : w \in {v \in Range(ws) : Len(v) < n /\ Whole(ws, v) >= p}}
Closed == n = k => Plain(ws, p, k) = st.done
\* without pruning the semantic query returns every word, cut after k activities, as often as it occurs
Cut(w) == SubSeq(w, 1, Min2(k, Len(w)))
NothingLost == n = k /\ p = 1 => LET S == Semantic(ws, 1, k) IN
                 SumFun([x \in S |-> x[2]], S) = Len(ws) + SumFun([x \in S |-> 0], S) /\ {x[1] : x \in S} = {Cut(w) : w \in Range(ws)}
====
