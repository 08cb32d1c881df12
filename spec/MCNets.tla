---- MODULE MCNets ----
(* The token game as a state machine, checked exhaustively over all nets with 2 places and 2 transitions *)
(* with arc weights 0..1 and small initial markings.                                                      *)
EXTENDS Nets, TLC
VARIABLES net, m, n
W == {<<a, b>> : a \in 0..1, b \in 0..1}
Tr == [lab : {"a", ""}, pre : W \ {<<0, 0>>}, post : W]
Init == /\ net \in [t : {<<x, y>> : x \in Tr, y \in Tr}, im : {<<1, 0>>, <<1, 1>>}, fm : {<<0, 1>>}]
        /\ m = net.im /\ n = 0
Next == /\ n < 4
        /\ \E i \in EnabledSet(net, m) : m' = Fire(net.t[i], m)
        /\ n' = n + 1 /\ UNCHANGED net
Spec == Init /\ [][Next]_<<net, m, n>>
NonNegative == \A p \in DOMAIN m : m[p] >= 0
\* token balance per step
Balance == [][\E i \in DOMAIN net.t : \A p \in DOMAIN m : m'[p] - m[p] = net.t[i].post[p] - net.t[i].pre[p]]_<<m>>
\* monotonicity: a transition that is enabled stays enabled when tokens are added
Monotone == \A i \in EnabledSet(net, m) : Enabled(net.t[i], [p \in DOMAIN m |-> m[p] + 1])
Inv == NonNegative /\ Monotone
====
