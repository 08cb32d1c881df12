-------------------------------- MODULE Fprint ---------------------------------
(* Footprints: the directly-follows relation of a language, split into its       *)
(* asymmetric part (sequence) and its symmetric part (parallel), with the        *)
(* activities, start and end activities, the length of the shortest word and     *)
(* the activities occurring in every word.                                       *)
EXTENDS Tk, Models

SeqPart(D) == {p \in D : <<p[2], p[1]>> \notin D}
ParPart(D) == {p \in D : <<p[2], p[1]>> \in D}

\* ---- a log: a sequence of words
WPairs(w) == {<<w[i], w[i + 1]>> : i \in 1 .. (Len(w) - 1)}
LogDf(ws) == UNION {WPairs(ws[i]) : i \in DOMAIN ws}
DfCount(ws, p) == SumSeq([k \in DOMAIN ws |-> Cardinality({i \in 1 .. (Len(ws[k]) - 1) : ws[k][i] = p[1] /\ ws[k][i + 1] = p[2]})])
LogStarts(ws) == {ws[i][1] : i \in {j \in DOMAIN ws : ws[j] # <<>>}}
LogEnds(ws) == {ws[i][Len(ws[i])] : i \in {j \in DOMAIN ws : ws[j] # <<>>}}
LogActs(ws) == UNION {Range(ws[i]) : i \in DOMAIN ws}
LogMin(ws) == SetMin({Len(ws[i]) : i \in DOMAIN ws})

\* ---- a process term: every derivative is on the way to a complete word
RECURSIVE PReachFix(_, _, _)
PReachFix(A, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == UNION {Deriv(x[1], x[2]) : x \in front \X A} \ seen IN PReachFix(A, new, seen \cup new)
PReach(t, A) == PReachFix(A, {t}, {t})
Afters(R, a) == UNION {Deriv(x, a) : x \in R}
ProcFp(t) ==
  LET A == Alphabet(t)
      R == PReach(t, A)
      af == [a \in A |-> Afters(R, a)]
      en == [x \in R |-> {a \in A : Deriv(x, a) # {}}]
      D == UNION {{<<a, b>> : b \in UNION {en[x] : x \in af[a]}} : a \in A}
  IN  [df |-> D, starts |-> en[t], ends |-> {a \in A : \E x \in af[a] : Nullable(x)}, acts |-> A,
       always |-> {a \in A : \A x \in PReach(t, A \ {a}) : ~ Nullable(x)}]
RECURSIVE ShortFix(_, _, _)
ShortFix(A, front, k) == IF \E x \in front : Nullable(x) THEN k ELSE ShortFix(A, UNION {Deriv(x[1], x[2]) : x \in front \X A}, k + 1)
ProcMin(t) == ShortFix(Alphabet(t), {t}, 0)

\* ---- a net: all its firing sequences (the final marking plays no role)
NetFp(net) ==
  LET R == Reach(net, net.im)
      vis == {i \in DOMAIN net.t : net.t[i].lab # ""}
      nextOf == [m \in R |-> {net.t[i].lab : i \in {j \in vis : \E x \in TauClosure(net, {m}) : Enabled(net.t[j], x)}}]
      steps == {y \in vis \X R : Enabled(net.t[y[1]], y[2])}
  IN  [df |-> UNION {{<<net.t[y[1]].lab, b>> : b \in nextOf[Fire(net.t[y[1]], y[2])]} : y \in steps},
       starts |-> nextOf[net.im], acts |-> {net.t[i].lab : i \in vis}]
================================================================================
