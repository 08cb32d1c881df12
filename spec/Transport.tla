---- MODULE Transport ----
(* Moving probability mass: the cheapest way to turn one collection of n equally likely words into another. *)
EXTENDS Tk
RECURSIVE Lev(_, _)
\* edit distance
Lev(s, t) ==
  IF s = <<>> THEN Len(t)
  ELSE IF t = <<>> THEN Len(s)
  ELSE IF Head(s) = Head(t) THEN Lev(Tail(s), Tail(t))
  ELSE 1 + Min2(Lev(Tail(s), Tail(t)), Min2(Lev(Tail(s), t), Lev(s, Tail(t))))
\* sixty times the normalised edit distance of words of at most five letters
Dist60(s, t) == IF s = t THEN 0 ELSE (60 * Lev(s, t)) \div Max2(Len(s), Len(t))
Differ(s, t) == IF s = t THEN 0 ELSE 60
RECURSIVE Assign(_, _, _)
\* cheapest assignment of the rows i.. of the cost matrix to distinct columns of J
Assign(C, i, J) == IF i > Len(C) THEN 0 ELSE SetMin({C[i][j] + Assign(C, i + 1, J \ {j}) : j \in J})
Cost(A, B, D(_, _)) == Assign([i \in DOMAIN A |-> [j \in DOMAIN B |-> D(A[i], B[j])]], 1, DOMAIN B)
====
