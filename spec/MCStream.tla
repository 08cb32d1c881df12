---- MODULE MCStream ----
(* All interleavings of two cases over two activities: the incremental algorithms agree, after every prefix, with *)
(* what batch processing of the per-case projections gives; closing a case does not disturb the other one.        *)
EXTENDS Stream
VARIABLES h, d, f, gone
N == atoi(IOEnv.NEVENTS)
Cs == {"1", "2"}
As == {"a", "b"}
FP == [starts |-> {"a"}, ends |-> {"b"}, acts |-> {"a", "b"}, rel |-> {<<"a", "b">>}]
FP2 == [starts |-> {"a"}, ends |-> {"a"}, acts |-> {"a"}, rel |-> {<<"a", "a">>}]
Init == h = <<>> /\ d = DfgInit /\ f = <<FpInit, FpInit>> /\ gone = {}
Recv == \E c \in Cs \ gone, a \in As :
          /\ h' = Append(h, <<c, a>>) /\ d' = DfgStep(d, <<c, a>>)
          /\ f' = <<FpStep(FP, f[1], <<c, a>>), FpStep(FP2, f[2], <<c, a>>)>> /\ UNCHANGED gone
Close == \E c \in CasesOf(h) \ gone : gone' = gone \cup {c} /\ f' = <<FpForget(f[1], c), FpForget(f[2], c)>> /\ UNCHANGED <<h, d>>
Next == (Len(h) < N /\ Recv) \/ Close
Spec == Init /\ [][Next]_<<h, d, f, gone>>
DfgOk == DfgTables(d) = BatchTables(h)
FpOk == \A c \in CasesOf(h) \ gone : \A k \in 1..2 :
          LET fp == IF k = 1 THEN FP ELSE FP2
              w == Proj(h, c)
          IN  f[k].dev[c] = FpDevs(fp, w) /\ FpClose(fp, f[k], c) = FpDevs(fp, w) + FpEnd(fp, w)
Gone == \A c \in gone : c \notin DOMAIN f[1].dev /\ c \notin DOMAIN f[1].last
Inv == DfgOk /\ FpOk /\ Gone
====
