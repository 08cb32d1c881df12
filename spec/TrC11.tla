---- MODULE TrC11 ----
(* Text, PTML, simplification and normal forms of process trees and POWL models. *)
EXTENDS Models, Tk
VARIABLE l
RECURSIVE SameTerm(_, _)
SameTerm(x, y) ==
  /\ x[1] = y[1]
  /\ IF x[1] \in {"act", "tau"} THEN x[2] = y[2]
     ELSE IF x[1] = "po" THEN /\ Len(x[2][1]) = Len(y[2][1])
                              /\ \A i \in DOMAIN x[2][1] : SameTerm(x[2][1][i], y[2][1][i])
                              /\ Range(x[2][2]) = Range(y[2][2])
     ELSE Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : SameTerm(x[2][i], y[2][i])
\* equality up to the order of the children of commutative operators
RECURSIVE SameMod(_, _)
SameMod(x, y) ==
  /\ x[1] = y[1]
  /\ IF x[1] \in {"act", "tau"} THEN x[2] = y[2]
     ELSE /\ Len(x[2]) = Len(y[2])
          /\ IF x[1] \in {"xor", "par", "or", "ilv"}
             THEN \A i \in DOMAIN x[2] : Cardinality({j \in DOMAIN x[2] : SameMod(x[2][i], x[2][j])}) = Cardinality({j \in DOMAIN y[2] : SameMod(x[2][i], y[2][j])})
             ELSE \A i \in DOMAIN x[2] : SameMod(x[2][i], y[2][i])
RECURSIVE BigLoop(_)
BigLoop(x) == ~ (x[1] \in {"act", "tau"}) /\ ((x[1] = "loop" /\ Len(x[2]) > 2) \/ \E i \in DOMAIN x[2] : BigLoop(x[2][i]))
RECURSIVE NoUnary(_)
NoUnary(x) == (x[1] \in {"act", "tau"}) \/ (Len(x[2]) >= 2 /\ \A i \in DOMAIN x[2] : NoUnary(x[2][i]))
RECURSIVE Binary(_)
Binary(x) == (x[1] \in {"act", "tau"}) \/ (Len(x[2]) <= 2 /\ \A i \in DOMAIN x[2] : Binary(x[2][i]))
RECURSIVE Height(_)
Height(x) == IF x[1] \in {"act", "tau"} THEN 1 ELSE 1 + SetMax({Height(x[2][i]) : i \in DOMAIN x[2]})
\* leaves in left-to-right order
RECURSIVE Leaves(_)
RECURSIVE LeavesSeq(_)
LeavesSeq(s) == IF s = <<>> THEN <<>> ELSE Leaves(Head(s)) \o LeavesSeq(Tail(s))
Leaves(x) == IF x[1] = "act" THEN <<x[2]>> ELSE IF x[1] = "tau" THEN <<"">> ELSE LeavesSeq(x[2])
SL(x, y) == SameLanguage(ProcModel(x), ProcModel(y), 400)
Check(r) ==
  CASE r.op = "text" -> [text_round_trip |-> \A i \in DOMAIN r.out : SameTerm(r.tree, r.out[i])]
    [] r.op = "powltext" -> [powl_text_round_trip |-> r.equal /\ SL(r.tree, r.out)]
    [] r.op = "ptml" -> [ptml_round_trip |-> \A i \in DOMAIN r.out : IF BigLoop(r.tree) THEN SL(r.tree, r.out[i]) ELSE SameMod(r.tree, r.out[i]),
                         exporter_keeps_the_tree |-> SameTerm(r.tree, r.after)]
    [] r.op = "fold" -> [fold_keeps_the_language |-> SL(r.tree, r.out),
                         fold_leaves_no_single_child |-> NoUnary(r.out),
                         fold_parents_are_consistent |-> r.parents,
                         fold_keeps_its_input |-> SameTerm(r.tree, r.after)]
    [] r.op = "reduce" -> [reduce_keeps_the_language |-> SL(r.tree, r.out)]
    [] r.op = "binary" -> [binary_form_keeps_the_language |-> SL(r.tree, r.out),
                           binary_form_is_binary |-> Binary(r.out)]
    [] r.op = "sort" -> [sort_only_reorders |-> SameMod(r.tree, r.out),
                         sort_is_canonical |-> SameTerm(r.out, r.out2)]
    [] r.op = "equal" -> [equality_is_structural |-> (r.eq = SameTerm(r.tree, r.other)) /\ (r.eq => r.hash),
                          language_equality_is_sound |-> r.seq => SL(r.tree, r.other),
                          language_equality_modulo_order |-> SameMod(r.tree, r.other) => r.seq]
    [] r.op = "measure" -> [height |-> r.height = Height(r.tree),
                            leaves |-> r.leaves = Leaves(r.tree),
                            common_ancestor |-> \A i \in DOMAIN r.lca : LET up == SelectSeq(r.lca[i][2], LAMBDA x : x \in Range(r.lca[i][3])) IN r.lca[i][1] = <<up[1]>>]
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
