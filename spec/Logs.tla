---- MODULE Logs ----
(* Counting over logs.  A log is a sequence of cases; here a case is the        *)
(* sequence of its activities (a word) or of its events.                        *)
EXTENDS Tk
Where(w) == UNION {{<<c, i>> : i \in 1..Len(w[c])} : c \in DOMAIN w}
Acts(w) == UNION {Range(w[c]) : c \in DOMAIN w}
NonEmpty(w) == {c \in DOMAIN w : Len(w[c]) > 0}
\* a directly follows b with distance win: number of occurrences
DfOcc(w, win, a, b) == {p \in Where(w) : p[2] + win <= Len(w[p[1]]) /\ w[p[1]][p[2]] = a /\ w[p[1]][p[2] + win] = b}
DfCount(w, win, a, b) == Cardinality(DfOcc(w, win, a, b))
DfCases(w, win, a, b) == Cardinality({p[1] : p \in DfOcc(w, win, a, b)})
Dfg(w) == LET P == {<<w[p[1]][p[2]], w[p[1]][p[2] + 1]>> : p \in {q \in Where(w) : q[2] < Len(w[q[1]])}} IN {<<x[1], x[2], DfCount(w, 1, x[1], x[2])>> : x \in P}
DfgWin(w, win) == LET P == {<<w[p[1]][p[2]], w[p[1]][p[2] + win]>> : p \in {q \in Where(w) : q[2] + win <= Len(w[q[1]])}} IN {<<x[1], x[2], DfCount(w, win, x[1], x[2])>> : x \in P}
DfgOnce(w, win) == {<<x[1], x[2], DfCases(w, win, x[1], x[2])>> : x \in DfgWin(w, win)}
Starts(w) == {<<a, Cardinality({c \in NonEmpty(w) : w[c][1] = a})>> : a \in {w[c][1] : c \in NonEmpty(w)}}
Ends(w) == {<<a, Cardinality({c \in NonEmpty(w) : w[c][Len(w[c])] = a})>> : a \in {w[c][Len(w[c])] : c \in NonEmpty(w)}}
ActCount(w) == {<<a, Cardinality({p \in Where(w) : w[p[1]][p[2]] = a})>> : a \in Acts(w)}
Triples(w) == LET T == {p \in Where(w) : p[2] + 2 <= Len(w[p[1]])}
                  X(p) == <<w[p[1]][p[2]], w[p[1]][p[2] + 1], w[p[1]][p[2] + 2]>>
              IN  {<<x[1], x[2], x[3], Cardinality({p \in T : X(p) = x})>> : x \in {X(p) : p \in T}}
\* eventually follows over events [a, s, t]: t of the first is not after s of the second
EfPairs(ev, first) ==
  {<<c, i, j>> \in UNION {{<<c, i, j>> : i \in 1..Len(ev[c]), j \in 1..Len(ev[c])} : c \in DOMAIN ev} :
     /\ i < j /\ ev[c][i].t <= ev[c][j].s
     /\ first => ~ \E k \in (i + 1)..(j - 1) : ev[c][i].t <= ev[c][k].s}
Efg(ev, first) ==
  LET P == EfPairs(ev, first)
      X(p) == <<ev[p[1]][p[2]].a, ev[p[1]][p[3]].a>>
  IN  {<<x[1], x[2], Cardinality({p \in P : X(p) = x})>> : x \in {X(p) : p \in P}}
\* a reported bag of tuples is exactly the expected set
Exact(rep, exp) == NoDup(rep) /\ Range(rep) = exp
====
