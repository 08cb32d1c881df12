---- MODULE TrC47 ----
(* Generated process trees respect the parameters; reducing a tree by a trace keeps the behaviour over the activities of the trace. *)
EXTENDS Models, Tk
VARIABLE l
RECURSIVE Leaves(_)
Leaves(x) == IF x[1] = "act" THEN <<x[2]>> ELSE IF x[1] = "tau" THEN <<"">> ELSE Flatten([i \in DOMAIN x[2] |-> Leaves(x[2][i])])
RECURSIVE Ops(_)
Ops(x) == IF x[1] \in {"act", "tau"} THEN {} ELSE {x[1]} \cup UNION {Ops(x[2][i]) : i \in DOMAIN x[2]}
RECURSIVE Binary(_)
Binary(x) == x[1] \in {"act", "tau"} \/ (Len(x[2]) = 2 /\ \A i \in DOMAIN x[2] : Binary(x[2][i]))
Visible(x) == SelectSeq(Leaves(x), LAMBDA a : a # "")
GenTree(r, t) ==
  LET vis == Visible(t)
      none == {k \in DOMAIN r.weights : r.weights[k] = 0}
  IN  [number_of_activities_in_the_bounds |-> r.dup = 0 => Len(vis) >= r.min /\ Len(vis) <= r.max,
       operators_are_binary |-> Binary(t),
       only_operators_with_a_weight |-> Ops(t) \cap none = {},
       distinct_labels_without_duplication |-> r.dup = 0 => NoDup(vis),
       no_silent_leaf_when_not_asked_for |-> (r.silent = 0 /\ r.dup = 0 /\ Len(vis) > 1) => Len(vis) = Len(Leaves(t)),
       number_of_leaves_with_duplication |-> Len(Leaves(t)) >= r.min]
Gen(r) ==
  LET C == [i \in DOMAIN r.trees |-> GenTree(r, r.trees[i])]
  IN  [c \in DOMAIN C[1] |-> \A i \in DOMAIN C : C[i][c]] @@ [number_of_trees |-> Len(r.trees) = r.n, parents_are_consistent |-> r.parents]
\* ---- the basic generator: depth of the nodes below the root sequence start, .., end
RECURSIVE Shape(_, _, _, _)
Shape(x, d, lo, hi) ==
  CASE x[1] = "act" -> d >= lo
    [] x[1] = "tau" -> FALSE
    [] x[1] = "loop" -> d <= hi /\ Len(x[2]) = 3 /\ x[2][3][1] = "tau" /\ Shape(x[2][1], d + 1, lo, hi) /\ Shape(x[2][2], d + 1, lo, hi)
    [] OTHER -> /\ d <= hi
                /\ Len(x[2]) >= 2
                /\ Len(x[2]) <= (CASE x[1] = "seq" -> 5 [] x[1] = "xor" -> 4 [] x[1] = "par" -> 3)
                /\ \A i \in DOMAIN x[2] : Shape(x[2][i], d + 1, lo, hi)
Basic(r) ==
  LET t == r.tree
  IN  [start_process_end |-> IF r.lo = 0 THEN t[1] = "act" \/ (t[1] = "seq" /\ Len(t[2]) = 3)
                             ELSE t[1] = "seq" /\ Len(t[2]) = 3 /\ t[2][1][1] = "act" /\ t[2][3][1] = "act",
       depth_and_number_of_children |-> t[1] = "act" \/ Shape(t[2][2], 1, r.lo, r.hi),
       leaves_as_early_as_possible |-> r.always => IF t[1] = "act" THEN r.lo = 0 ELSE Shape(t[2][2], 1, r.lo, r.lo - 1),
       parents_are_consistent |-> r.parents]
\* ---- reduction by a trace
RECURSIVE Superfluous(_, _)
\* nodes below the root that can be skipped and have activities, none of them in A
Superfluous(x, A) ==
  IF x[1] \in {"act", "tau"} THEN FALSE
  ELSE \E i \in DOMAIN x[2] : \/ (Nullable(x[2][i]) /\ Alphabet(x[2][i]) # {} /\ Alphabet(x[2][i]) \cap A = {})
                              \/ Superfluous(x[2][i], A)
Red(r) ==
  LET T == ProcModel(r.tree)
      O == ProcModel(r.out)
      A == Range(r.word)
  IN  [no_new_behaviour |-> Included(O, T, 300),
       words_over_the_activities_of_the_trace_are_kept |-> WalkFix(T, O, A, "sub", 300, {<<<<>>, MInit(T), MInit(O)>>}, {<<MInit(T), MInit(O)>>}) = {},
       skippable_parts_without_these_activities_are_gone |-> ~ Superfluous(r.out, A),
       tree_is_left_unchanged |-> r.same]
Check(r) == CASE r.op = "gen" -> Gen(r) [] r.op = "basic" -> Basic(r) [] r.op = "red" -> Red(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
