---- MODULE GenTrees ----
(* All process trees with at most NLEAVES leaves over the operators; leaves carry the labels a, b, c, .. from left to *)
(* right, at most NTAU of them are silent.  Every tree is printed (it is an input for the real code) and, as a check of *)
(* the specification itself, the derivative semantics of Procs is compared with the denotational one.                   *)
EXTENDS Procs, TLC, Json, IOUtils
VARIABLE tree
NLEAVES == atoi(IOEnv.NLEAVES)
NTAU == atoi(IOEnv.NTAU)
WITHOR == IOEnv.WITHOR = "1"
EMIT == IOEnv.EMIT = "1"
Letters == <<"a", "b", "c", "d", "e", "f">>
Ops == {"seq", "xor", "par", "loop"} \cup (IF WITHOR THEN {"or", "ilv"} ELSE {})
\* compositions of n into at least two parts
RECURSIVE Comp(_)
Comp(n) == {<<n>>} \cup UNION {{<<i>> \o c : c \in Comp(n - i)} : i \in 1..(n - 1)}
RECURSIVE Shapes(_)
RECURSIVE Prod(_)
Prod(c) == IF c = <<>> THEN {<<>>} ELSE {<<h>> \o r : h \in Shapes(Head(c)), r \in Prod(Tail(c))}
Shapes(n) == IF n = 1 THEN {<<"act", "">>} ELSE {<<o, ch>> : o \in Ops, ch \in UNION {Prod(c) : c \in {x \in Comp(n) : Len(x) >= 2}}}
\* labels from left to right, starting with index k; leaves in S are silent: <<labelled tree, next index>>
RECURSIVE Lab(_, _, _)
RECURSIVE LabSeq(_, _, _)
LabSeq(s, k, S) == IF s = <<>> THEN <<<<>>, k>>
                   ELSE LET h == Lab(Head(s), k, S)
                            t == LabSeq(Tail(s), h[2], S)
                        IN  <<<<h[1]>> \o t[1], t[2]>>
Lab(x, k, S) == IF x[1] = "act" THEN <<IF k \in S THEN Eps ELSE <<"act", Letters[k]>>, k + 1>>
                ELSE LET r == LabSeq(x[2], k, S) IN <<<<x[1], r[1]>>, r[2]>>
Trees == UNION {{Lab(x, 1, S)[1] : x \in Shapes(n), S \in {T \in SUBSET (1..n) : Cardinality(T) <= NTAU}} : n \in 1..NLEAVES}
Init == tree \in Trees /\ (EMIT => PrintT("GEN " \o ToJson(tree)))
Next == UNCHANGED tree
Spec == Init /\ [][Next]_tree
K == 4
RECURSIVE LWords(_, _, _)
\* the words of length <= k by derivatives
LWords(S, w, k) == (IF ProcAcc(S) THEN {w} ELSE {})
                   \cup (IF k = 0 THEN {} ELSE UNION {LWords(ProcStep(S, a), Append(w, a), k - 1) : a \in {a \in Alphabet(tree) : ProcStep(S, a) # {}}})
DerivativesAgree == LWords({tree}, <<>>, K) = Lang(tree, K)
NullableAgrees == Nullable(tree) = (<<>> \in Lang(tree, 0))
====
