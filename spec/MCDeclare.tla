---- MODULE MCDeclare ----
\* the templates over every word up to a length: the strength order between them, duality under reversal, and the
\* operational reading of alternation (the projection on the pair, trimmed, is (ab)^n)
EXTENDS Declare
VARIABLE w
N == atoi(IOEnv.N)
A == {"a", "b", "c"}
Init == w \in UNION {[1..n -> A] : n \in 0..N}
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
H(t, x) == Holds(t, "a", "b", x)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Implies(s, t) == H(s, w) => H(t, w)
Order == /\ Implies("chainresponse", "altresponse") /\ Implies("altresponse", "response") /\ Implies("response", "responded_existence")
         /\ Implies("chainprecedence", "altprecedence") /\ Implies("altprecedence", "precedence")
         /\ Implies("chainsuccession", "altsuccession") /\ Implies("altsuccession", "succession") /\ Implies("succession", "coexistence")
         /\ Implies("noncoexistence", "nonsuccession") /\ Implies("nonsuccession", "nonchainsuccession")
         /\ Implies("exactly_one", "existence") /\ Implies("init", "existence")
         /\ (H("absence", w) <=> ~ H("existence", w))
         /\ ~ (Occ(w, "a") /\ H("succession", w) /\ H("nonsuccession", w))
Dual == /\ Holds("precedence", "a", "b", w) = Holds("response", "b", "a", Rev(w))
        /\ Holds("altprecedence", "a", "b", w) = Holds("altresponse", "b", "a", Rev(w))
        /\ Holds("chainprecedence", "a", "b", w) = Holds("chainresponse", "b", "a", Rev(w))
AB == Project(w, {"a", "b"})
RECURSIVE TrimL(_, _)
TrimL(s, x) == IF s # <<>> /\ Head(s) = x THEN TrimL(Tail(s), x) ELSE s
Pairs(s) == Len(s) % 2 = 0 /\ \A i \in DOMAIN s : s[i] = IF i % 2 = 1 THEN "a" ELSE "b"
Alternation == /\ H("altresponse", w) = Pairs(TrimL(AB, "b"))
               /\ H("altprecedence", w) = Pairs(Rev(TrimL(Rev(AB), "a")))
               /\ H("altsuccession", w) = Pairs(AB)
====
