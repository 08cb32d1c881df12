---------------------------------- MODULE Powl ----------------------------------
(* Well-formed POWL models (terms of module Procs).                             *)
EXTENDS Integers, Sequences
\* every order of the model is a strict partial order (irreflexive and transitive, hence asymmetric) over its nodes
StrictOrder(n, ord) ==
  LET R == {<<ord[i][1], ord[i][2]>> : i \in DOMAIN ord}
  IN  /\ \A p \in R : p[1] # p[2] /\ p[1] \in 1..n /\ p[2] \in 1..n
      /\ \A p, q \in R : p[2] = q[1] => <<p[1], q[2]>> \in R
RECURSIVE WellFormed(_)
WellFormed(x) ==
  CASE x[1] \in {"act", "tau"} -> TRUE
    [] x[1] = "po" -> StrictOrder(Len(x[2][1]), x[2][2]) /\ \A i \in DOMAIN x[2][1] : WellFormed(x[2][1][i])
    [] x[1] = "loop" -> Len(x[2]) = 2 /\ \A i \in DOMAIN x[2] : WellFormed(x[2][i])
    [] x[1] = "xor" -> Len(x[2]) >= 2 /\ \A i \in DOMAIN x[2] : WellFormed(x[2][i])
================================================================================
