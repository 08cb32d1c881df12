---- MODULE Stream ----
(* Streaming algorithms as state machines: one step per received event <<case, activity>>. *)
EXTENDS Logs, Nets
Inc(f, k) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN (IF k \in DOMAIN f THEN f[k] + 1 ELSE 1) ELSE f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]

\* the projection of a history (sequence of <<case, activity>>) on a case
Proj(h, c) == LET s == SelectSeq(h, LAMBDA e : e[1] = c) IN [i \in DOMAIN s |-> s[i][2]]
CasesOf(h) == {h[i][1] : i \in DOMAIN h}
Words(h) == LET cs == SetToSeqAny(CasesOf(h)) IN [i \in DOMAIN cs |-> Proj(h, cs[i])]

\* ---- directly-follows discovery
DfgInit == [last |-> Empty, dfg |-> Empty, acts |-> Empty, sa |-> Empty]
DfgStep(s, e) ==
  LET c == e[1]
      a == e[2]
      new == c \notin DOMAIN s.last
  IN  [last |-> Put(s.last, c, a), acts |-> Inc(s.acts, a),
       sa |-> IF new THEN Inc(s.sa, a) ELSE s.sa,
       dfg |-> IF new THEN s.dfg ELSE Inc(s.dfg, <<s.last[c], a>>)]
DfgTables(s) ==
  [dfg |-> {<<p[1], p[2], s.dfg[p]>> : p \in DOMAIN s.dfg},
   acts |-> {<<a, s.acts[a]>> : a \in DOMAIN s.acts},
   sa |-> {<<a, s.sa[a]>> : a \in DOMAIN s.sa},
   ea |-> {<<a, Cardinality({c \in DOMAIN s.last : s.last[c] = a})>> : a \in {s.last[c] : c \in DOMAIN s.last}}]
\* what batch discovery reports for the history
BatchTables(h) == LET w == Words(h) IN [dfg |-> Dfg(w), acts |-> ActCount(w), sa |-> Starts(w), ea |-> Ends(w)]

\* ---- footprints: fp = [starts, ends, acts, rel]
FpInit == [last |-> Empty, dev |-> Empty]
FpStep(fp, s, e) ==
  LET c == e[1]
      a == e[2]
      d == IF c \in DOMAIN s.dev THEN s.dev[c] ELSE 0
  IN  IF a \notin fp.acts THEN [s EXCEPT !.dev = Put(s.dev, c, d + 1)]
      ELSE LET bad == IF c \in DOMAIN s.last THEN <<s.last[c], a>> \notin fp.rel ELSE a \notin fp.starts
           IN  [last |-> Put(s.last, c, a), dev |-> Put(s.dev, c, IF bad THEN d + 1 ELSE d)]
FpClose(fp, s, c) == s.dev[c] + (IF c \in DOMAIN s.last /\ s.last[c] \notin fp.ends THEN 1 ELSE 0)
FpForget(s, c) == [last |-> Drop(s.last, c), dev |-> Drop(s.dev, c)]
\* the verdict on a word alone: number of deviations
FpDevs(fp, w) ==
  LET k == SelectSeq(w, LAMBDA a : a \in fp.acts)
  IN  Len(w) - Len(k)
      + (IF k # <<>> /\ k[1] \notin fp.starts THEN 1 ELSE 0)
      + Cardinality({i \in 1 .. (Len(k) - 1) : <<k[i], k[i + 1]>> \notin fp.rel})
FpEnd(fp, w) == LET k == SelectSeq(w, LAMBDA a : a \in fp.acts) IN IF k # <<>> /\ k[Len(k)] \notin fp.ends THEN 1 ELSE 0

\* ---- token replay: the possible outcomes of an event for a case with marking m: <<marking, missing tokens>>
Lack(pre, m) == [p \in DOMAIN m |-> Max2(0, pre[p] - m[p])]
AddV(a, b) == [p \in DOMAIN a |-> a[p] + b[p]]
TbrFire(t, m) == LET d == Lack(t.pre, m) IN <<Fire(t, AddV(m, d)), SumSeq(d)>>
TbrOut(net, m, a) ==
  {TbrFire(net.t[x[1]], x[2]) : x \in {i \in DOMAIN net.t : net.t[i].lab = a} \X TauClosure(net, {m})}
\* without silent steps
TbrDirect(net, m, a) == {Fire(net.t[i], m) : i \in {j \in DOMAIN net.t : net.t[j].lab = a /\ Enabled(net.t[j], m)}}
\* the possible outcomes of closing the case: <<missing, remaining>>
TbrEnd(net, m) == {<<SumSeq(Lack(net.fm, x)), SumSeq([p \in DOMAIN x |-> Max2(0, x[p] - net.fm[p])])>> : x \in TauClosure(net, {m})}

\* ---- temporal profile: prof is a set of <<a, b, mean, std>>; an event is [a, s, t]; zeta = <<num, den>>
TempDev(prof, zeta, e, f) ==
  LET P == {x \in prof : x[1] = e.a /\ x[2] = f.a}
      d == f.s - e.t
  IN  {<<e.a, f.a, d, x[3], x[4]>> : x \in {x \in P : f.s >= e.t /\ zeta[2] * Abs(d - x[3]) > zeta[1] * x[4]}}
====
