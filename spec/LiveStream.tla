---- MODULE LiveStream ----
(* A live stream: producers append to a queue guarded by a lock with a condition variable, a mail man hands every event *)
(* over to the mailboxes of the algorithms and submits one task per algorithm to a pool of workers, a stopper drains    *)
(* the queue and the pool.  ORDERED = FALSE is the design without mailboxes (the task carries the event).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
VARIABLES q, st, mm, sp, waiting, held, hist, box, tasks, run, del, sent
vars == <<q, st, mm, sp, waiting, held, hist, box, tasks, run, del, sent>>
NPROD == atoi(IOEnv.NPROD)
NEV == atoi(IOEnv.NEV)
POOL == atoi(IOEnv.POOL)
NALGO == atoi(IOEnv.NALGO)
NSTOP == atoi(IOEnv.NSTOP)
ALL == IOEnv.ALL = "1"  \* notify_all rather than notify
ORDERED == IOEnv.ORDERED = "1"
P == 1 .. NPROD
A == 1 .. NALGO
S == 1 .. NSTOP
Prefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
Init == /\ q = <<>> /\ st = "new" /\ mm = "none" /\ sp = [s \in S |-> "go"] /\ waiting = {} /\ held = FALSE
        /\ hist = <<>> /\ box = [a \in A |-> <<>>] /\ tasks = <<>> /\ run = [a \in A |-> <<>>] /\ del = [a \in A |-> <<>>] /\ sent = [p \in P |-> 0]
\* the sets of waiting threads (0: the mail man) that a notification may wake up
Wakes == IF waiting = {} THEN {{}} ELSE IF ALL THEN {waiting} ELSE {{w} : w \in waiting}
MM(W) == IF 0 \in W THEN "check" ELSE mm
SP(W) == [s \in S |-> IF s \in W THEN "go" ELSE sp[s]]
Append1(p) ==
  /\ ~ held /\ sent[p] < NEV
  /\ sent' = [sent EXCEPT ![p] = @ + 1]
  /\ IF st # "fin"
     THEN /\ q' = Append(q, <<p, sent[p]>>) /\ hist' = Append(hist, <<p, sent[p]>>)
          /\ \E W \in Wakes : waiting' = waiting \ W /\ mm' = MM(W) /\ sp' = SP(W)
     ELSE UNCHANGED <<q, hist, waiting, mm, sp>>
  /\ UNCHANGED <<st, held, box, tasks, run, del>>
Start == /\ ~ held /\ st = "new" /\ st' = "act" /\ mm' = "check" /\ UNCHANGED <<q, sp, waiting, held, hist, box, tasks, run, del, sent>>
Empty(w0) == \* the mail man finds the queue empty: it wakes somebody up, and waits or ends
  LET ends == st = "fin"
  IN  /\ waiting' = (waiting \ w0) \cup (IF ends THEN {} ELSE {0})
      /\ sp' = SP(w0)
      /\ mm' = IF ends THEN "end" ELSE "wait"
Tasks(e, a0) == IF ORDERED THEN [i \in 1 .. NALGO |-> <<i, <<>>>>] ELSE [i \in 1 .. NALGO |-> <<i, e>>]
Mail ==
  /\ ~ held /\ mm = "check"
  /\ IF q = <<>>
     THEN /\ \E W \in Wakes : Empty(W)
          /\ UNCHANGED <<q, box, tasks>>
     ELSE /\ q' = Tail(q)
          /\ box' = [a \in A |-> IF ORDERED THEN Append(box[a], Head(q)) ELSE <<>>]
          /\ tasks' = tasks \o Tasks(Head(q), 0)
          /\ UNCHANGED <<waiting, mm, sp>>
  /\ UNCHANGED <<st, held, hist, run, del, sent>>
Stop(s) ==
  /\ ~ held /\ sp[s] = "go" /\ st # "new"
  /\ IF q # <<>> THEN sp' = [sp EXCEPT ![s] = "wait"] /\ waiting' = waiting \cup {s} /\ UNCHANGED held
     ELSE sp' = [sp EXCEPT ![s] = "drain"] /\ held' = TRUE /\ UNCHANGED waiting
  /\ UNCHANGED <<q, st, mm, hist, box, tasks, run, del, sent>>
Idle == tasks = <<>> /\ \A a \in A : run[a] = <<>>
Drained(s) ==
  /\ sp[s] = "drain" /\ Idle
  /\ held' = FALSE
  /\ IF st = "act"
     THEN \E W \in Wakes : waiting' = waiting \ W /\ mm' = MM(W) /\ sp' = [SP(W) EXCEPT ![s] = "done"]
     ELSE sp' = [sp EXCEPT ![s] = "done"] /\ UNCHANGED <<waiting, mm>>
  /\ st' = "fin"
  /\ UNCHANGED <<q, hist, box, tasks, run, del, sent>>
Busy == LET RECURSIVE N(_)
            N(k) == IF k = 0 THEN 0 ELSE Len(run[k]) + N(k - 1)
        IN  N(NALGO)
Take == /\ tasks # <<>> /\ Busy < POOL
        /\ LET t == Head(tasks) IN run' = [run EXCEPT ![t[1]] = Append(@, t[2])]
        /\ tasks' = Tail(tasks)
        /\ UNCHANGED <<q, st, mm, sp, waiting, held, hist, box, del, sent>>
\* a worker that took a task of algorithm a gets the lock of the mailbox (or of the algorithm)
Receive(a) ==
  /\ run[a] # <<>>
  /\ IF ORDERED
     THEN /\ del' = [del EXCEPT ![a] = Append(@, Head(box[a]))]
          /\ box' = [box EXCEPT ![a] = Tail(@)]
          /\ run' = [run EXCEPT ![a] = Tail(@)]
     ELSE \E i \in DOMAIN run[a] : /\ del' = [del EXCEPT ![a] = Append(@, run[a][i])]
                                   /\ run' = [run EXCEPT ![a] = [j \in 1 .. (Len(@) - 1) |-> IF j < i THEN @[j] ELSE @[j + 1]]]
                                   /\ UNCHANGED box
  /\ UNCHANGED <<q, st, mm, sp, waiting, held, hist, tasks, sent>>
Over == mm = "end" /\ (\A s \in S : sp[s] = "done") /\ (\A p \in P : sent[p] = NEV) /\ UNCHANGED vars
Next == (\E p \in P : Append1(p)) \/ Start \/ Mail \/ (\E s \in S : Stop(s) \/ Drained(s)) \/ Take \/ (\E a \in A : Receive(a)) \/ Over
Spec == Init /\ [][Next]_vars
InOrder == \A a \in A : Prefix(del[a], hist)
Complete == (\E s \in S : sp[s] = "done") => \A a \in A : del[a] = hist
Inv == InOrder /\ Complete
====
