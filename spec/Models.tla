-------------------------------- MODULE Models ---------------------------------
(* A model is [k |-> "net", net |-> ...] or [k |-> "proc", term |-> ...]; this   *)
(* module gives a common view (nondeterministic automaton) and decides language *)
(* equality and inclusion by walking the product of the two subset automata.    *)
EXTENDS Nets, Procs

MInit(M) == IF M.k = "xnet" THEN XNetInit(M.net) ELSE IF M.k = "net" THEN NetInit(M.net) ELSE ProcInit(M.term)
MStep(M, S, a) == IF M.k = "xnet" THEN XNetStep(M.net, S, a) ELSE IF M.k = "net" THEN NetStep(M.net, S, a) ELSE ProcStep(S, a)
MAcc(M, S) == IF M.k \in {"net", "xnet"} THEN NetAcc(M.net, S) ELSE ProcAcc(S)
MSigma(M) == IF M.k \in {"net", "xnet"} THEN Labels(M.net) ELSE Alphabet(M.term)
XNetModel(n) == [k |-> "xnet", net |-> n]
NetModel(n) == [k |-> "net", net |-> n]
ProcModel(t) == [k |-> "proc", term |-> t]

RECURSIVE MRun(_, _, _)
MRun(M, S, w) == IF w = <<>> \/ S = {} THEN S ELSE MRun(M, MStep(M, S, Head(w)), Tail(w))
MAccepts(M, w) == MAcc(M, MRun(M, MInit(M), w))

\* front: set of <<word, S1, S2>>; seen: set of <<S1, S2>>; result: a set of distinguishing words (empty: none found)
\* mode "eq" or "sub" (language of A included in language of B); lim bounds the number of product states
RECURSIVE WalkFix(_, _, _, _, _, _, _)
WalkFix(A, B, sig, mode, lim, front, seen) ==
  LET wit == {x \in front : LET p == MAcc(A, x[2])
                                q == MAcc(B, x[3])
                            IN  IF mode = "eq" THEN p # q ELSE p /\ ~q}
  IN IF wit # {} THEN {x[1] : x \in wit}
     ELSE IF front = {} \/ Cardinality(seen) > lim THEN {}
     ELSE LET nx == {y \in {<<Append(x[1], a), MStep(A, x[2], a), MStep(B, x[3], a)>> : x \in front, a \in sig} :
                          (y[2] # {} \/ (mode = "eq" /\ y[3] # {})) /\ <<y[2], y[3]>> \notin seen}
              \* one representative word per product state
              ks == {<<y[2], y[3]>> : y \in nx}
              rep == {CHOOSE y \in nx : <<y[2], y[3]>> = z : z \in ks}
          IN  WalkFix(A, B, sig, mode, lim, rep, seen \cup ks)

Differences(A, B, lim) ==
  LET i == MInit(A)
      j == MInit(B)
  IN  WalkFix(A, B, MSigma(A) \cup MSigma(B), "eq", lim, {<<<<>>, i, j>>}, {<<i, j>>})
SameLanguage(A, B, lim) == Differences(A, B, lim) = {}
Included(A, B, lim) ==
  LET i == MInit(A)
      j == MInit(B)
  IN  WalkFix(A, B, MSigma(A) \cup MSigma(B), "sub", lim, {<<<<>>, i, j>>}, {<<i, j>>}) = {}

\* all words of length <= k, as a set, with one subset state per word
RECURSIVE WordsFix(_, _, _, _, _)
WordsFix(M, sig, k, front, acc) ==
  LET fin == {x[1] : x \in {y \in front : MAcc(M, y[2])}}
  IN  IF k = 0 THEN acc \cup fin
      ELSE LET nx == {y \in {<<Append(x[1], a), MStep(M, x[2], a)>> : x \in front, a \in sig} : y[2] # {}}
           IN  IF nx = {} THEN acc \cup fin ELSE WordsFix(M, sig, k - 1, nx, acc \cup fin)
Words(M, k) == WordsFix(M, MSigma(M), k, {<<<<>>, MInit(M)>>}, {})
================================================================================
