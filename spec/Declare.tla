---- MODULE Declare ----
\* DECLARE templates over a trace w (sequence of activities); when a constraint applies to a trace and when it holds.
EXTENDS Tk
At(w, a) == {i \in DOMAIN w : w[i] = a}
Occ(w, a) == At(w, a) # {}
\* nothing of the pair strictly between i and j
Clear(w, i, j, a, b) == \A k \in (i + 1)..(j - 1) : w[k] \notin {a, b}
Before(w, j, a) == \E i \in At(w, a) : i < j
After(w, i, b) == \E j \in At(w, b) : i < j
Templates1 == {"existence", "absence", "exactly_one", "init"}
Templates2 == {"responded_existence", "response", "precedence", "succession", "altresponse", "altprecedence", "altsuccession", "chainresponse", "chainprecedence",
               "chainsuccession", "coexistence", "noncoexistence", "nonsuccession", "nonchainsuccession"}
Response(w, a, b) == \A i \in At(w, a) : After(w, i, b)
Precedence(w, a, b) == \A j \in At(w, b) : Before(w, j, a)
\* from the first a on, a and b alternate and an a is not last
AltResponse(w, a, b) ==
  /\ \A i \in At(w, a) : \E j \in At(w, b) : j > i /\ Clear(w, i, j, a, b)
  /\ \A j \in At(w, b) : Before(w, j, a) => \E i \in At(w, a) : i < j /\ Clear(w, i, j, a, b)
\* up to the last b, a and b alternate and a b is not first
AltPrecedence(w, a, b) ==
  /\ \A j \in At(w, b) : \E i \in At(w, a) : i < j /\ Clear(w, i, j, a, b)
  /\ \A i \in At(w, a) : After(w, i, b) => \E j \in At(w, b) : j > i /\ Clear(w, i, j, a, b)
\* as above, and every a with a b after it (b with an a before it) is next to it
ChainResponse(w, a, b) == AltResponse(w, a, b) /\ \A i \in At(w, a) : i + 1 \in At(w, b)
ChainPrecedence(w, a, b) == AltPrecedence(w, a, b) /\ \A j \in At(w, b) : j - 1 \in At(w, a)
Holds(t, a, b, w) ==
  CASE t = "existence" -> Occ(w, a)
    [] t = "absence" -> ~ Occ(w, a)
    [] t = "exactly_one" -> Cardinality(At(w, a)) = 1
    [] t = "init" -> w # <<>> /\ w[1] = a
    [] t = "responded_existence" -> Occ(w, a) => Occ(w, b)
    [] t = "coexistence" -> Occ(w, a) <=> Occ(w, b)
    [] t = "noncoexistence" -> ~ (Occ(w, a) /\ Occ(w, b))
    [] t = "response" -> Response(w, a, b)
    [] t = "precedence" -> Precedence(w, a, b)
    [] t = "succession" -> Response(w, a, b) /\ Precedence(w, a, b)
    [] t = "altresponse" -> AltResponse(w, a, b)
    [] t = "altprecedence" -> AltPrecedence(w, a, b)
    [] t = "altsuccession" -> AltResponse(w, a, b) /\ AltPrecedence(w, a, b)
    [] t = "chainresponse" -> ChainResponse(w, a, b)
    [] t = "chainprecedence" -> ChainPrecedence(w, a, b)
    [] t = "chainsuccession" -> ChainResponse(w, a, b) /\ ChainPrecedence(w, a, b)
    [] t = "nonsuccession" -> ~ \E i \in At(w, a) : After(w, i, b)
    [] t = "nonchainsuccession" -> ~ \E i \in At(w, a) : i + 1 \in At(w, b)
\* the cases counted in the support of a constraint
Applies(t, a, b, w) ==
  CASE t \in {"existence", "absence", "init"} -> TRUE
    [] t = "exactly_one" -> Occ(w, a)
    [] t \in {"responded_existence", "response", "altresponse", "chainresponse"} -> Occ(w, a)
    [] t \in {"precedence", "altprecedence", "chainprecedence"} -> Occ(w, b)
    [] OTHER -> Occ(w, a) \/ Occ(w, b)
Support(t, a, b, L) == Cardinality({c \in DOMAIN L : Applies(t, a, b, L[c])})
Confidence(t, a, b, L) == Cardinality({c \in DOMAIN L : Applies(t, a, b, L[c]) /\ Holds(t, a, b, L[c])})
Project(w, A) == FilterSeq(w, LAMBDA x : x \in A)
====
