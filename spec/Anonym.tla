---- MODULE Anonym ----
(* Anonymised trace variants: the prefix tree grows level by level; every level adds noise to the counts and prunes.
   ws: the words of the log.  State: the open prefixes of level n with their counts, the finished words. *)
EXTENDS Tk
End == "|"
Whole(ws, w) == Cardinality({i \in DOMAIN ws : ws[i] = w})
Begun(ws, w) == Cardinality({i \in DOMAIN ws : IsPrefixOf(w, ws[i])})
Acts(ws) == UNION {Range(ws[i]) : i \in DOMAIN ws}
Grown(ws, open) == {Append(w, a) : w \in open, a \in Acts(ws)}
Start == [open |-> {<<>>}, done |-> {}]
\* one level without noise: prune open prefixes (and finished words, unless exempt) with a count below p
Level(ws, st, p, exempt) ==
  [open |-> {w \in Grown(ws, st.open) : Begun(ws, w) >= p},
   done |-> st.done \cup {<<w, Whole(ws, w)>> : w \in {v \in st.open : v # <<>> /\ (exempt \/ Whole(ws, v) >= p)}}]
RECURSIVE Levels(_, _, _, _, _)
Levels(ws, st, p, exempt, k) == IF k = 0 THEN st ELSE Levels(ws, Level(ws, st, p, exempt), p, exempt, k - 1)
\* the words and counts the query returns for prefixes of at most k steps: a plain query drops unfinished words,
\* the semantic one keeps the words cut after k activities and does not prune its last level
Plain(ws, p, k) == {x \in Levels(ws, Start, p, FALSE, k).done : x[2] > 0}
Semantic(ws, p, k) ==
  LET st == Levels(ws, Start, p, TRUE, k - 1)
      cut == {<<w, Begun(ws, w)>> : w \in Grown(ws, st.open)}
      fin == st.done \cup {<<w, Whole(ws, w)>> : w \in st.open \ {<<>>}}
  IN  {x \in cut \cup fin : x[2] > 0}
====
