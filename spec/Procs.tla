--------------------------------- MODULE Procs ---------------------------------
(* Process terms: process trees and POWL models, with their operational         *)
(* semantics given by partial derivatives.  A term is a tagged tuple:           *)
(*   <<"act", a>>  <<"tau", 0>>  <<"seq", <<..>>>>  <<"xor", <<..>>>>            *)
(*   <<"par", <<..>>>>  <<"loop", <<do, redo1, .., redoN>>>>  <<"or", <<..>>>>               *)
(*   <<"ilv", <<..>>>> (children in any order, not overlapping)                  *)
(*   <<"po", <<children, order>>>>, order a sequence of pairs of child indices   *)
(* and, during execution, <<"star", term>>.                                     *)
EXTENDS Integers, Sequences, FiniteSets

Eps == <<"tau", 0>>

RECURSIVE Nullable(_)
Nullable(x) ==
  CASE x[1] = "act" -> FALSE
    [] x[1] = "tau" -> TRUE
    [] x[1] = "star" -> TRUE
    [] x[1] \in {"seq", "par", "ilv"} -> \A i \in DOMAIN x[2] : Nullable(x[2][i])
    [] x[1] \in {"xor", "or"} -> \E i \in DOMAIN x[2] : Nullable(x[2][i])
    [] x[1] = "loop" -> Nullable(x[2][1])
    [] x[1] = "po" -> \A i \in DOMAIN x[2][1] : Nullable(x[2][1][i])

RECURSIVE Alphabet(_)
Alphabet(x) ==
  CASE x[1] = "act" -> {x[2]}
    [] x[1] = "tau" -> {}
    [] x[1] = "star" -> Alphabet(x[2])
    [] x[1] = "po" -> UNION {Alphabet(x[2][1][i]) : i \in DOMAIN x[2][1]}
    [] OTHER -> UNION {Alphabet(x[2][i]) : i \in DOMAIN x[2]}

DropEps(s) == SelectSeq(s, LAMBDA y : y # Eps)
MkSeq(s) == LET r == DropEps(s) IN IF r = <<>> THEN Eps ELSE IF Len(r) = 1 THEN r[1] ELSE <<"seq", r>>
MkPar(s) == LET r == DropEps(s) IN IF r = <<>> THEN Eps ELSE IF Len(r) = 1 THEN r[1] ELSE <<"par", r>>
RemoveIdx(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

\* non-empty sub-selections of the children, kept in order
SubSel(s) == {SelectSeq([i \in DOMAIN s |-> <<i, s[i]>>], LAMBDA y : y[1] \in I) : I \in (SUBSET DOMAIN s) \ {{}}}
OrTerms(s) == {MkPar([k \in DOMAIN z |-> z[k][2]]) : z \in SubSel(s)}

\* a loop executes its first child, and after each of its other children (any of them) the first one again
Redo(x) == IF Len(x[2]) = 2 THEN x[2][2] ELSE <<"xor", Tail(x[2])>>

RECURSIVE Deriv(_, _)
RECURSIVE SeqDeriv(_, _)
SeqDeriv(s, a) ==
  IF s = <<>> THEN {}
  ELSE {MkSeq(<<d>> \o Tail(s)) : d \in Deriv(Head(s), a)}
       \cup (IF Nullable(Head(s)) THEN SeqDeriv(Tail(s), a) ELSE {})

\* the children that must be finished before child i can start
Preds(ord, i) == {ord[k][1] : k \in {k \in DOMAIN ord : ord[k][2] = i}}
RECURSIVE AllPreds(_, _)
AllPreds(ord, S) == LET P == UNION {Preds(ord, i) : i \in S} IN IF P \subseteq S THEN S ELSE AllPreds(ord, S \cup P)

Deriv(x, a) ==
  CASE x[1] = "act" -> IF x[2] = a THEN {Eps} ELSE {}
    [] x[1] = "tau" -> {}
    [] x[1] = "star" -> {MkSeq(<<d, x>>) : d \in Deriv(x[2], a)}
    [] x[1] = "seq" -> SeqDeriv(x[2], a)
    [] x[1] = "xor" -> UNION {Deriv(x[2][i], a) : i \in DOMAIN x[2]}
    [] x[1] = "or" -> UNION {Deriv(t, a) : t \in OrTerms(x[2])}
    [] x[1] = "par" -> UNION {{MkPar([x[2] EXCEPT ![i] = d]) : d \in Deriv(x[2][i], a)} : i \in DOMAIN x[2]}
    [] x[1] = "ilv" -> UNION { LET rest == RemoveIdx(x[2], i) IN
                               {MkSeq(<<d, IF rest = <<>> THEN Eps ELSE <<"ilv", rest>>>>) : d \in Deriv(x[2][i], a)}
                               \cup (IF Nullable(x[2][i]) /\ rest # <<>> THEN Deriv(<<"ilv", rest>>, a) ELSE {})
                             : i \in DOMAIN x[2]}
    [] x[1] = "loop" -> SeqDeriv(<<x[2][1], <<"star", <<"seq", <<Redo(x), x[2][1]>>>>>>>>, a)
    [] x[1] = "po" -> LET ch == x[2][1]
                          ord == x[2][2]
                      IN  UNION { LET pr == AllPreds(ord, {i}) \ {i} IN
                                  IF \A p \in pr : Nullable(ch[p])
                                  THEN {<<"po", <<[k \in DOMAIN ch |-> IF k \in pr THEN Eps ELSE IF k = i THEN d ELSE ch[k]], ord>>>> : d \in Deriv(ch[i], a)}
                                  ELSE {}
                                : i \in DOMAIN ch}

ProcInit(x) == {x}
ProcStep(S, a) == UNION {Deriv(x, a) : x \in S}
ProcAcc(S) == \E x \in S : Nullable(x)

RECURSIVE ProcRun(_, _)
ProcRun(S, w) == IF w = <<>> \/ S = {} THEN S ELSE ProcRun(ProcStep(S, Head(w)), Tail(w))
ProcAccepts(x, w) == ProcAcc(ProcRun({x}, w))

-------------------------------------------------------------------------------
\* the denotational semantics, cut at length k (used to cross-check Deriv in MCProcs)
RECURSIVE Shuffle(_, _)
Shuffle(u, v) == IF u = <<>> THEN {v} ELSE IF v = <<>> THEN {u}
                 ELSE {<<Head(u)>> \o w : w \in Shuffle(Tail(u), v)} \cup {<<Head(v)>> \o w : w \in Shuffle(u, Tail(v))}
Cut(L, k) == {w \in L : Len(w) <= k}
CatL(A, B, k) == Cut({u \o v : u \in A, v \in B}, k)
ShuL(A, B, k) == Cut(UNION {Shuffle(u, v) : u \in A, v \in B}, k)
RECURSIVE Lang(_, _)
RECURSIVE CatAll(_, _)
RECURSIVE ShuAll(_, _)
RECURSIVE StarL(_, _, _)
CatAll(s, k) == IF s = <<>> THEN {<<>>} ELSE CatL(Lang(Head(s), k), CatAll(Tail(s), k), k)
ShuAll(s, k) == IF s = <<>> THEN {<<>>} ELSE ShuL(Lang(Head(s), k), ShuAll(Tail(s), k), k)
StarL(L, acc, k) == LET nx == acc \cup CatL(acc, L, k) IN IF nx = acc THEN acc ELSE StarL(L, nx, k)
Lang(x, k) ==
  CASE x[1] = "act" -> Cut({<<x[2]>>}, k)
    [] x[1] = "tau" -> {<<>>}
    [] x[1] = "star" -> StarL(Lang(x[2], k), {<<>>}, k)
    [] x[1] = "seq" -> CatAll(x[2], k)
    [] x[1] = "xor" -> UNION {Lang(x[2][i], k) : i \in DOMAIN x[2]}
    [] x[1] = "par" -> ShuAll(x[2], k)
    [] x[1] = "or" -> UNION {Lang(t, k) : t \in OrTerms(x[2])}
    [] x[1] = "loop" -> LET d == Lang(x[2][1], k) IN CatL(d, StarL(CatL(Lang(Redo(x), k), d, k), {<<>>}, k), k)
    [] x[1] = "ilv" -> UNION { CatL(Lang(x[2][i], k), IF Len(x[2]) = 1 THEN {<<>>} ELSE Lang(<<"ilv", RemoveIdx(x[2], i)>>, k), k) : i \in DOMAIN x[2]}
================================================================================
