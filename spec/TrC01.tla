---- MODULE TrC01 ----
(* Trace specification for the firing rule: the recorded walk must be a walk of the token game of module Nets. *)
EXTENDS Tk, Nets
VARIABLES l, net, m      \* position in the trace, current net, current marking
vars == <<l, net, m>>

Ext == net.kind = "xreset"
En(t, mk) == IF Ext THEN XEnabled(t, mk) ELSE Enabled(t, mk)
Fr(t, mk) == IF Ext THEN XFire(t, mk) ELSE Fire(t, mk)
\* firing without sufficient tokens: tokens that are not there are not taken
WeakFire(t, mk) == [p \in DOMAIN mk |-> (IF Ext /\ t.rst[p] = 1 THEN 0 ELSE Max2(0, mk[p] - t.pre[p])) + t.post[p]]

EnIdx(mk) == {i \in DOMAIN net.net.t : En(net.net.t[i], mk)}

Step(r) ==
  LET t == net.net.t[r.t]
      exp == IF r.what = "weak" THEN WeakFire(t, m) ELSE Fr(t, m)
      none == r.what = "exec" /\ ~ En(t, m)
  IN  [enabled_iff_enough_tokens |-> Range(r.en) = EnIdx(m) /\ Range(r.en2) = EnIdx(m),
       enabled_set |-> Range(r.es) = EnIdx(m) /\ Range(r.es2) = EnIdx(m),
       foreign_transition_not_enabled |-> ~ r.foreign,
       disabled_returns_nothing |-> r.none = none,
       result_marking |-> none \/ r.none \/ (r.res = exp /\ r.res2 = exp),
       no_zero_entries |-> ~ r.zeros,
       no_foreign_places |-> ~ r.extra,
       input_marking_unchanged |-> r.before = m /\ r.after = m /\ ~ r.same_obj,
       marking_algebra |-> ~ Has(r, "alg") \/
           LET a == r.alg.a
               b == r.alg.b
           IN  /\ r.alg.eq = (a = b)
               /\ r.alg.le = (\A p \in DOMAIN a : a[p] <= b[p])
               /\ r.alg.add = [p \in DOMAIN a |-> a[p] + b[p]]
               /\ r.alg.ge = (\A p \in DOMAIN a : b[p] <= a[p])
               /\ r.alg.sub = b
               /\ ~ r.alg.subz
               /\ r.alg.copy_ok
               /\ r.alg.mcopy_ok
               /\ r.alg.hash_ok]

Init == l = 1 /\ net = [kind |-> "none"] /\ m = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Trace[l] IN
     CASE r.op = "exc" -> Report(l, ExcClause) /\ UNCHANGED <<net, m>>
       [] r.op = "net" -> net' = r /\ m' = r.m
       [] r.op = "step" -> /\ Report(l, Step(r))
                           /\ m' = IF r.adv THEN r.res ELSE m
                           /\ UNCHANGED net
Spec == Init /\ [][Next]_vars
====
