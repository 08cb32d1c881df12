---- MODULE Lifecycle ----
(* Lifecycle events (one timestamp and a transition) and interval events (start and completion).
   State of a case while its events are read in order: the starts not completed yet, and the intervals produced so far. *)
EXTENDS Times, Tk
IsStart(e) == e.tr \in {"start", "START", "Start"}
IsComplete(e) == e.tr \in {"", "complete", "COMPLETE", "Complete"}     \* "" : no transition
Begin == [pend |-> {}, out |-> <<>>]
\* the earliest open start of the same activity and instance, 0 if there is none
Open(ev, st, i) ==
  LET K == {j \in st.pend : ev[j].a = ev[i].a /\ ev[j].inst = ev[i].inst}
  IN  IF K = {} THEN 0 ELSE SetMin(K)
Read(ev, st, i) ==
  CASE IsStart(ev[i]) -> [st EXCEPT !.pend = @ \cup {i}]
    [] IsComplete(ev[i]) -> LET j == Open(ev, st, i) IN [pend |-> st.pend \ {j}, out |-> Append(st.out, <<i, j>>)]
    [] OTHER -> st
RECURSIVE ReadAll(_, _, _)
ReadAll(ev, st, i) == IF i > Len(ev) THEN st ELSE ReadAll(ev, Read(ev, st, i), i + 1)
StartOf(ev, p) == IF p[2] = 0 THEN ev[p[1]].t ELSE ev[p[2]].t
\* the intervals of a case, by start time, otherwise by completion
Intervals(ev) ==
  LET o == ReadAll(ev, Begin, 1).out
      q == SortSeq([i \in DOMAIN o |-> <<StartOf(ev, o[i]), i>>], LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
  IN  [i \in DOMAIN q |-> o[q[i][2]]]
\* the lifecycle events of interval events: <<time, event, 0 for the start and 1 for the completion>>
Halves(iv) ==
  LET h == [i \in 1..(2 * Len(iv)) |-> LET k == (i + 1) \div 2 IN IF i % 2 = 1 THEN <<iv[k].s, k, 0>> ELSE <<iv[k].t, k, 1>>]
  IN  SortSeq(h, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))))
\* working time: up to event i of a case ordered by start
EndsUpTo(iv, i) == {iv[j].t : j \in 1..i}
LeadTime(bh, iv, i) == Elapsed(bh, iv[1].s, SetMax(EndsUpTo(iv, i)))
IdleBefore(bh, iv, i) == IF i = 1 THEN 0 ELSE LET m == SetMax(EndsUpTo(iv, i - 1)) IN IF iv[i].s > m THEN Elapsed(bh, m, iv[i].s) ELSE 0
Idle(bh, iv, i) == SumSeq([j \in 1..i |-> IdleBefore(bh, iv, j)])
CycleTime(bh, iv, i) == LeadTime(bh, iv, i) - Idle(bh, iv, i)
====
