--------------------------------- MODULE Nets ----------------------------------
(* Accepting (labelled, weighted) Petri nets.                                   *)
(* A net is a record [t, im, fm]: t is a sequence of transitions                *)
(* [lab, pre, post] (lab = "" for a silent transition; pre/post are sequences   *)
(* of arc weights indexed by place), im and fm are markings.                    *)
(* A marking is a sequence of token counts indexed by place.                    *)
EXTENDS Integers, Sequences, FiniteSets

Enabled(tr, m) == \A p \in DOMAIN m : m[p] >= tr.pre[p]
Fire(tr, m) == [p \in DOMAIN m |-> m[p] - tr.pre[p] + tr.post[p]]

EnabledSet(net, m) == {i \in DOMAIN net.t : Enabled(net.t[i], m)}
Succs(net, m) == {Fire(net.t[i], m) : i \in EnabledSet(net, m)}

\* extended nets: inh[p] = 1 marks an inhibitor arc from p, rst[p] = 1 a reset arc from p
XEnabled(tr, m) == \A p \in DOMAIN m : m[p] >= tr.pre[p] /\ (tr.inh[p] = 1 => m[p] = 0)
XFire(tr, m) == [p \in DOMAIN m |-> (IF tr.rst[p] = 1 THEN 0 ELSE m[p] - tr.pre[p]) + tr.post[p]]

RECURSIVE ReachFix(_, _, _)
ReachFix(net, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == (UNION {Succs(net, m) : m \in front}) \ seen
       IN  ReachFix(net, new, seen \cup new)
Reach(net, m) == ReachFix(net, {m}, {m})

\* exploration cut after cap markings: <<markings, complete?>>
RECURSIVE CapFix(_, _, _, _)
CapFix(net, front, seen, cap) ==
  IF front = {} THEN <<seen, TRUE>>
  ELSE IF Cardinality(seen) > cap THEN <<seen, FALSE>>
  ELSE LET new == (UNION {Succs(net, m) : m \in front}) \ seen IN CapFix(net, new, seen \cup new, cap)
Explore(net, cap) == CapFix(net, {net.im}, {net.im}, cap)
\* at most cap reachable markings
Bounded(net, cap) == Explore(net, cap)[2]

\* markings from which some marking in goal can be reached, inside the finite set R
RECURSIVE BackFix(_, _, _)
BackFix(net, R, good) ==
  LET new == {m \in R \ good : Succs(net, m) \cap good # {}}
  IN  IF new = {} THEN good ELSE BackFix(net, R, good \cup new)
CanReach(net, R, goal) == BackFix(net, R, goal \cap R)

-------------------------------------------------------------------------------
\* visible behaviour: subset construction over silent closure
Silent(net) == {i \in DOMAIN net.t : net.t[i].lab = ""}
Labels(net) == {net.t[i].lab : i \in DOMAIN net.t} \ {""}

RECURSIVE TauFix(_, _, _, _)
TauFix(net, sil, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == {Fire(net.t[x[1]], x[2]) : x \in {y \in sil \X front : Enabled(net.t[y[1]], y[2])}} \ seen
       IN  TauFix(net, sil, new, seen \cup new)
TauClosure(net, S) == LET sil == Silent(net) IN IF sil = {} THEN S ELSE TauFix(net, sil, S, S)

NetInit(net) == TauClosure(net, {net.im})
NetStep(net, S, a) ==
  LET ts == {i \in DOMAIN net.t : net.t[i].lab = a}
      nx == {Fire(net.t[x[1]], x[2]) : x \in {y \in ts \X S : Enabled(net.t[y[1]], y[2])}}
  IN  TauClosure(net, nx)
NetAcc(net, S) == net.fm \in S
NetNext(net, S) == {net.t[i].lab : i \in {j \in DOMAIN net.t : net.t[j].lab # "" /\ \E m \in S : Enabled(net.t[j], m)}}

\* the same for extended nets
RECURSIVE XTauFix(_, _, _, _)
XTauFix(net, sil, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == {XFire(net.t[x[1]], x[2]) : x \in {y \in sil \X front : XEnabled(net.t[y[1]], y[2])}} \ seen
       IN  XTauFix(net, sil, new, seen \cup new)
XTauClosure(net, S) == LET sil == Silent(net) IN IF sil = {} THEN S ELSE XTauFix(net, sil, S, S)
XNetInit(net) == XTauClosure(net, {net.im})
XNetStep(net, S, a) ==
  LET ts == {i \in DOMAIN net.t : net.t[i].lab = a}
  IN  XTauClosure(net, {XFire(net.t[x[1]], x[2]) : x \in {y \in ts \X S : XEnabled(net.t[y[1]], y[2])}})
XSuccs(net, m) == {XFire(net.t[i], m) : i \in {j \in DOMAIN net.t : XEnabled(net.t[j], m)}}
RECURSIVE XCapFix(_, _, _, _)
XCapFix(net, front, seen, cap) ==
  IF front = {} THEN TRUE
  ELSE IF Cardinality(seen) > cap THEN FALSE
  ELSE LET new == (UNION {XSuccs(net, m) : m \in front}) \ seen IN XCapFix(net, new, seen \cup new, cap)
XBounded(net, cap) == XCapFix(net, {net.im}, {net.im}, cap)

RECURSIVE NetRun(_, _, _)
NetRun(net, S, w) == IF w = <<>> \/ S = {} THEN S ELSE NetRun(net, NetStep(net, S, Head(w)), Tail(w))
Accepts(net, w) == NetAcc(net, NetRun(net, NetInit(net), w))

\* a sequence of transition indices is a firing sequence from m; the result is <<ok, marking>>
RECURSIVE FireSeq(_, _, _)
FireSeq(net, m, ts) ==
  IF ts = <<>> THEN <<TRUE, m>>
  ELSE IF Head(ts) \in DOMAIN net.t /\ Enabled(net.t[Head(ts)], m)
       THEN FireSeq(net, Fire(net.t[Head(ts)], m), Tail(ts))
       ELSE <<FALSE, m>>

-------------------------------------------------------------------------------
\* Cheapest alignment of a trace with a complete run.  State of the synchronous
\* product: <<number of consumed events, marking>>; a move is
\*   synchronous (event and equally labelled transition, cost sc[t]),
\*   log only (cost lc[i]) or model only (cost mc[t]).
Zero(i) == 0
ProdMoves(net, w, lc, mc, sc, s) ==
  LET i == s[1]
      m == s[2]
      en == EnabledSet(net, m)
  IN  {<<mc[k], <<i, Fire(net.t[k], m)>>>> : k \in en}
      \cup (IF i < Len(w)
            THEN {<<lc[i + 1], <<i + 1, m>>>>}
                 \cup {<<sc[k], <<i + 1, Fire(net.t[k], m)>>>> : k \in {k \in en : net.t[k].lab = w[i + 1]}}
            ELSE {})

RECURSIVE ZeroFix(_, _, _, _, _, _, _)
\* closure of front under zero-cost moves; seen: settled states
ZeroFix(net, w, lc, mc, sc, front, seen) ==
  IF front = {} THEN seen
  ELSE LET mv == UNION {ProdMoves(net, w, lc, mc, sc, s) : s \in front}
           new == {x[2] : x \in {y \in mv : y[1] = 0}} \ seen
       IN  ZeroFix(net, w, lc, mc, sc, new, seen \cup new)

RECURSIVE CostFix(_, _, _, _, _, _, _)
CostFix(net, w, lc, mc, sc, open, closed) ==
  IF open = {} THEN -1
  ELSE LET c == CHOOSE c \in {o[1] : o \in open} : \A o \in open : c <= o[1]
           cur == {o[2] : o \in {o \in open : o[1] = c}} \ closed
           layer == ZeroFix(net, w, lc, mc, sc, cur, cur) \ closed
       IN  IF <<Len(w), net.fm>> \in layer THEN c
           ELSE LET cl2 == closed \cup layer
                    nx == {<<c + x[1], x[2]>> : x \in UNION {ProdMoves(net, w, lc, mc, sc, s) : s \in layer}}
                IN  CostFix(net, w, lc, mc, sc, {o \in (open \cup nx) : o[2] \notin cl2}, cl2)

\* minimal cost of an alignment, -1 if the final marking cannot be reached
OptCost(net, w, lc, mc, sc) == CostFix(net, w, lc, mc, sc, {<<0, <<0, net.im>>>>}, {})
================================================================================
