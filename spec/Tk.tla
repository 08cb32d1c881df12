---------------------------------- MODULE Tk ----------------------------------
(* Toolkit shared by all trace specifications: reading the recorded trace,     *)
(* reporting failed clauses, and small operators on sequences and functions.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* c: record clause name |-> BOOLEAN.  Prints the names of the clauses that are FALSE for line i.
Report(i, c) ==
  LET bad == {k \in DOMAIN c : ~ c[k]}
  IN  bad = {} \/ PrintT("BAD " \o ToJson([l |-> i, bad |-> bad]))

\* the record of a call that raised / did not return
IsExc(r) == r.op = "exc"
ExcClause == [no_exception |-> FALSE]

Has(r, f) == f \in DOMAIN r

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumFun(_, _)
\* sum of f[x] for x in the finite set S
SumFun(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFun(f, S \ {x})

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]

\* multiset equality of two sequences
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

NoDup(s) == Cardinality(Range(s)) = Len(s)

\* positions of s (in increasing order) that satisfy P, as a sequence of the elements
FilterSeq(s, P(_)) == SelectSeq(s, P)

RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqAny(S \ {x})

RECURSIVE SortedSeq(_)
\* the integers of S in increasing order
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SortedSeq(S \ {x})

\* rationals are pairs <<num, den>> with den > 0
RatEq(a, b) == a[1] * b[2] = b[1] * a[2]
RatLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(Abs(q[1]), Abs(q[2])) IN IF g = 0 THEN q ELSE <<q[1] \div g, q[2] \div g>>
RatAdd(a, b) == Norm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
================================================================================
