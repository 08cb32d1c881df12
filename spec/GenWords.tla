---- MODULE GenWords ----
\* every non-empty word over the first K letters up to length N; every log of M such words of length up to NL
EXTENDS Tk
VARIABLE x
K == atoi(IOEnv.K)
N == atoi(IOEnv.N)
M == atoi(IOEnv.M)
Letters == <<"a", "b", "c", "d", "e">>
A == {Letters[i] : i \in 1..K}
W == UNION {[1..n -> A] : n \in 1..N}
Init == x \in [1..M -> W] /\ PrintT("GEN " \o ToJson(x))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
====
