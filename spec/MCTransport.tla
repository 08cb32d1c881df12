---- MODULE MCTransport ----
\* the distance is a metric on collections of words, bounded by the largest distance of two words
EXTENDS Transport
VARIABLES A, B, X
Words == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a", "b">>}
N == atoi(IOEnv.N)
Init == A \in [1..N -> Words] /\ B \in [1..N -> Words] /\ X \in [1..N -> Words]
Next == UNCHANGED <<A, B, X>>
Spec == Init /\ [][Next]_<<A, B, X>>
D(s, t) == Cost(s, t, Differ)
L(s, t) == Cost(s, t, Dist60)
Symmetric == L(A, B) = L(B, A) /\ D(A, B) = D(B, A)
Identity == L(A, B) = 0 <=> SameBag(A, B)
Bounded == L(A, B) <= D(A, B) /\ D(A, B) <= 60 * N
Overlap == D(A, B) = 60 * (N - SumFun([w \in Range(A) |-> Min2(Count(A, w), Count(B, w))], Range(A)))
Triangle == D(A, B) <= D(A, X) + D(X, B)
LevTriangle == Lev(A[1], B[1]) <= Lev(A[1], X[1]) + Lev(X[1], B[1])
====
