---- MODULE TrC48 ----
EXTENDS Lifecycle
VARIABLE l
Pairs(r) == [c \in DOMAIN r.ev |-> Intervals(r.ev[c])]
\* the intervals of case c: the completion, its start if there is one
PairOk(r, c) ==
  LET ev == r.ev[c]  q == Intervals(ev)  g == r.got[c]
  IN  /\ Len(g) = Len(q)
      /\ \A i \in DOMAIN q : LET e == ev[q[i][1]]  x == g[i] IN
           x.i = e.i /\ x.b = (IF q[i][2] = 0 THEN 0 ELSE ev[q[i][2]].i) /\ x.s = StartOf(ev, q[i]) /\ x.t = e.t
AttrOk(r, c) ==
  LET ev == r.ev[c]  q == Intervals(ev)  g == r.got[c]
  IN  Len(g) = Len(q) => \A i \in DOMAIN q : LET e == ev[q[i][1]]  x == g[i] IN
        x.a = e.a /\ x.inst = e.inst /\ x.no /\ x.ba = (IF q[i][2] = 0 THEN "" ELSE e.a)
DurOk(r, c) == \A i \in DOMAIN r.got[c] : LET x == r.got[c][i] IN
                 x.d = x.t - x.s /\ x.w = (IF r.bh = <<>> THEN -1 ELSE Elapsed(r.bh, x.s, x.t))
HalfOk(r, c) ==
  LET iv == r.ev[c]  h == Halves(iv)  g == r.got[c]
  IN  /\ Len(g) = Len(h)
      /\ \A i \in DOMAIN h : LET e == iv[h[i][2]]  x == g[i] IN
           x.i = e.i /\ x.t = h[i][1] /\ x.tr = (IF h[i][3] = 0 THEN "start" ELSE "complete") /\ x.a = e.a /\ x.inst = e.inst /\ x.no
Given(r, c) == IF r.op = "lead" THEN [i \in DOMAIN r.ev[c] |-> [s |-> r.ev[c][i].s, t |-> r.ev[c][i].t]]
               ELSE LET q == Intervals(r.ev[c]) IN [i \in DOMAIN q |-> [s |-> StartOf(r.ev[c], q[i]), t |-> r.ev[c][q[i][1]].t]]
SameLen(r, c) == [i \in DOMAIN r.got[c] |-> [s |-> r.got[c][i].s, t |-> r.got[c][i].t]] = Given(r, c)
All(r, P(_, _)) == Len(r.got) = Len(r.ev) /\ \A c \in DOMAIN r.ev : P(r, c)
Times4(r, c) ==
  LET iv == Given(r, c) g == r.got[c]
  IN  [lead |-> \A i \in DOMAIN iv : g[i].lead = LeadTime(r.bh, iv, i),
       cycle |-> \A i \in DOMAIN iv : g[i].cycle = CycleTime(r.bh, iv, i),
       idle |-> \A i \in DOMAIN iv : g[i].this = IdleBefore(r.bh, iv, i) /\ g[i].waste = Idle(r.bh, iv, i)]
Check(r) ==
  CASE r.op = "iv" -> [starts_paired_with_completions |-> All(r, PairOk), attributes |-> All(r, AttrOk), durations |-> All(r, DurOk), kept |-> r.keep]
    [] r.op = "lc" -> [two_events_per_interval |-> All(r, HalfOk), kept |-> r.keep]
    [] OTHER -> LET T == [c \in DOMAIN r.ev |-> IF Len(r.got) = Len(r.ev) /\ SameLen(r, c) THEN Times4(r, c) ELSE [lead |-> FALSE, cycle |-> FALSE, idle |-> FALSE]]
                IN  [lead_time |-> \A c \in DOMAIN T : T[c].lead, cycle_time |-> \A c \in DOMAIN T : T[c].cycle, idle_time |-> \A c \in DOMAIN T : T[c].idle,
                     ratio |-> \A c \in DOMAIN r.got : \A i \in DOMAIN r.got[c] : r.got[c][i].ratio, kept |-> r.keep]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
