-------------------------------- MODULE BpmnTok --------------------------------
(* Execution of BPMN diagrams with tokens on nodes: events, tasks, exclusive,     *)
(* parallel and inclusive (splitting) gateways, embedded sub-processes, error and  *)
(* message boundary events, terminate end events.                                 *)
(* A diagram is [n |-> <<[ty, lab, proc, att]>>, f |-> <<<<source, target>>>>]:   *)
(*  ty: "start" "end" "term" "err" (end events) "task" "sub" "xor+" "xor-" "and+"  *)
(*      "and-" "or+" (+ splits, - joins) "bmsg" "berr" (boundary events of att)    *)
(*  proc: index of the enclosing sub-process, 0 at the top.                       *)
(* A marking is a function from nodes to numbers of tokens.                       *)
EXTENDS Integers, Sequences, FiniteSets

TOut(b, i) == {k \in DOMAIN b.f : b.f[k][1] = i}
TIn(b, i) == {k \in DOMAIN b.f : b.f[k][2] = i}
Ty(b, i) == b.n[i].ty
IsEndEvent(b, i) == Ty(b, i) \in {"end", "term", "err"}
Boundary(b, s) == {i \in DOMAIN b.n : Ty(b, i) \in {"bmsg", "berr"} /\ b.n[i].att = s}
RECURSIVE Within(_, _, _)
\* node i lies (at any depth) inside sub-process s
Within(b, i, s) == b.n[i].proc # 0 /\ (b.n[i].proc = s \/ Within(b, b.n[i].proc, s))
Inside(b, s) == {i \in DOMAIN b.n : Within(b, i, s)}

Clear(m, S) == [i \in DOMAIN m |-> IF i \in S THEN 0 ELSE m[i]]
Put(m, S) == [i \in DOMAIN m |-> IF i \in S THEN m[i] + 1 ELSE m[i]]
TInit(b) == [i \in DOMAIN b.n |-> IF Ty(b, i) = "start" /\ b.n[i].proc = 0 THEN 1 ELSE 0]

\* tokens a node needs and takes
Need(b, i) == IF Ty(b, i) = "and-" THEN Cardinality(TIn(b, i)) ELSE 1
CanRun(b, m, i) == m[i] >= Need(b, i)
Completed(b, m) == \E i \in DOMAIN b.n : IsEndEvent(b, i) /\ b.n[i].proc = 0 /\ m[i] >= 1
TEnabled(b, m) == IF Completed(b, m) THEN {} ELSE {i \in DOMAIN b.n : CanRun(b, m, i)}

\* a token flows into node t
RECURSIVE Flow(_, _, _)
RECURSIVE Leave(_, _, _)
Flow(b, m, t) ==
  LET s == b.n[t].proc
      caught == {i \in Boundary(b, s) : b.n[i].lab = b.n[t].lab}
  IN CASE Ty(b, t) = "sub" -> Put(m, {i \in DOMAIN b.n : Ty(b, i) = "start" /\ b.n[i].proc = t} \cup {i \in Boundary(b, t) : Ty(b, i) = "bmsg"})
       [] IsEndEvent(b, t) /\ s # 0 /\ caught # {} -> LET c == CHOOSE i \in caught : TRUE IN Clear(Put(m, {c}), Inside(b, s) \cup (Boundary(b, s) \ {c}))
       [] Ty(b, t) = "term" /\ s = 0 -> Put(Clear(m, DOMAIN m \ {t}), {t})
       [] Ty(b, t) = "term" /\ s # 0 -> Leave(b, Clear(m, (Inside(b, s) \ {t}) \cup Boundary(b, s)), s)
       [] OTHER -> Put(m, {t})
\* the token of node i moves on
Leave(b, m, i) == IF TOut(b, i) = {} THEN m ELSE LET k == CHOOSE k \in TOut(b, i) : \A j \in TOut(b, i) : k <= j IN Flow(b, m, b.f[k][2])

Take(b, m, i) == [m EXCEPT ![i] = @ - Need(b, i)]
RECURSIVE FlowAll(_, _, _)
FlowAll(b, m, K) == IF K = {} THEN m ELSE LET k == CHOOSE k \in K : TRUE IN FlowAll(b, Flow(b, m, b.f[k][2]), K \ {k})

\* the markings executing node i can lead to
Exec(b, m, i) ==
  LET s == b.n[i].proc IN
  CASE Ty(b, i) \in {"end", "term"} /\ s # 0 -> {Leave(b, Clear(m, Inside(b, s) \cup Boundary(b, s)), s)}
    [] Ty(b, i) = "bmsg" -> LET a == b.n[i].att IN {Clear(Leave(b, Take(b, m, i), i), Inside(b, a) \cup (Boundary(b, a) \ {i}))}
    [] Ty(b, i) = "and+" -> {FlowAll(b, Take(b, m, i), TOut(b, i))}
    [] Ty(b, i) = "xor+" -> {Flow(b, Take(b, m, i), b.f[k][2]) : k \in TOut(b, i)}
    [] Ty(b, i) = "or+" -> {FlowAll(b, Take(b, m, i), K) : K \in (SUBSET TOut(b, i)) \ {{}}}
    [] OTHER -> {Leave(b, Take(b, m, i), i)}
================================================================================
