---- MODULE TrC22 ----
(* Histories of live streams: [kind, who, event] in the order of their occurrence; ac/ar call and return of append, sc/sr *)
(* of stop, rc/rr of register, uc/ur of deregister, gc/gr of a query, d0/d1 begin and end of the processing of an event.  *)
(* LiveStream.tla is the design; these are the observable guarantees it was checked for.                                  *)
EXTENDS Stream
VARIABLE l
Live(r) ==
  LET H == r.h
      I == DOMAIN H
      At(k, w, e) == {i \in I : H[i][1] = k /\ H[i][2] = w /\ H[i][3] = e}
      Kind(k) == {i \in I : H[i][1] = k}
      AC(e) == SetMin({i \in Kind("ac") : H[i][3] = e} \cup {Len(H) + 1})
      AR(e) == SetMin({i \in Kind("ar") : H[i][3] = e} \cup {Len(H) + 1})
      Evs == {H[i][3] : i \in Kind("ac")}
      Del(a) == LET s == SelectSeq(H, LAMBDA x : x[1] = "d0" /\ x[2] = a) IN [i \in DOMAIN s |-> s[i][3]]
      firstStop == SetMin(Kind("sc") \cup {Len(H) + 1})
      stopRet == SetMin(Kind("sr") \cup {Len(H) + 1})
      As == 1 .. r.n
      RC(a) == SetMin({i \in Kind("rc") : H[i][2] = a})
      RR(a) == SetMin({i \in Kind("rr") : H[i][2] = a})
      UC(a) == SetMin({i \in Kind("uc") : H[i][2] = a} \cup {Len(H) + 1})
      UR(a) == SetMin({i \in Kind("ur") : H[i][2] = a} \cup {Len(H) + 1})
      done == r.end = "ok"
      D == [a \in As |-> Del(a)]
      Pos(a, e) == SetMin({i \in DOMAIN D[a] : D[a][i] = e})
      Pairs(a) == {p \in (1 .. Len(D[a])) \X (1 .. Len(D[a])) : p[1] < p[2]}
      Ev(e) == <<IF e % 2 = 0 THEN "0" ELSE "1", IF e % 3 = 0 THEN "a" ELSE IF e % 3 = 1 THEN "b" ELSE "c">>
      Upto(a, k) == [i \in 1 .. k |-> Ev(D[a][i])]
      G == {i \in Kind("gr") : TRUE}
      GC(i) == SetMax({j \in Kind("gc") : H[j][2] = H[i][2] /\ j < i})
      Got(i) == r.gets[ToString(i)]
      Fits(i, k) == LET o == Got(i)
                        t == BatchTables(Upto(H[i][2], k))
                    IN  Exact(o.dfg, t.dfg) /\ Exact(o.acts, t.acts) /\ Exact(o.sa, t.sa) /\ Exact(o.ea, t.ea)
      N(k, a, i) == Cardinality({j \in Kind(k) : H[j][2] = a /\ j < i})
  IN  [comes_to_an_end |-> done,
       delivers_at_most_once |-> \A a \in As : NoDup(D[a]),
       delivers_only_appended_events |-> \A a \in As : Range(D[a]) \subseteq Evs,
       nothing_is_delivered_before_it_is_appended |-> \A i \in Kind("d0") : AC(H[i][3]) < i,
       every_event_appended_before_stop_is_delivered |-> done => \A a \in As : \A e \in Evs :
           (AR(e) < firstStop /\ AC(e) > RR(a) /\ UC(a) > Len(H)) => (e \in Range(D[a]) /\ \E j \in At("d1", a, e) : j < stopRet),
       in_append_order |-> \A a \in As : \A p \in Pairs(a) : ~ (AR(D[a][p[2]]) < AC(D[a][p[1]])),
       same_order_for_all_algorithms |-> \A a, b \in As : \A p \in Pairs(a) :
           (D[a][p[1]] \in Range(D[b]) /\ D[a][p[2]] \in Range(D[b])) => Pos(b, D[a][p[1]]) < Pos(b, D[a][p[2]]),
       one_event_at_a_time |-> \A a \in As : \A i \in {i \in Kind("d0") : H[i][2] = a} :
           N("d0", a, i) = N("d1", a, i),
       nothing_after_stop |-> done => /\ \A i \in Kind("d0") \cup Kind("d1") : i < SetMax(Kind("sr"))
                                      /\ \A i \in Kind("d0") : AC(H[i][3]) < stopRet,
       nothing_before_registration_or_after_its_end |-> \A i \in Kind("d0") : i > RC(H[i][2]) /\ AC(H[i][3]) < UR(H[i][2]),
       query_is_the_result_after_some_prefix |-> \A i \in G : \E k \in N("d1", H[i][2], GC(i)) .. N("d0", H[i][2], i) : Fits(i, k)]
Flat(r) ==
  LET Exp(t) == Flatten([i \in DOMAIN r.evs |->
                  LET o == SelectSeq(r.evs[i].objs, LAMBDA x : x[1] = t)
                  IN  [j \in DOMAIN o |-> [n |-> r.evs[i].n, a |-> r.evs[i].a, o |-> o[j][2], t |-> r.evs[i].n, keys |-> r.keys]]])
  IN  [one_event_per_object_of_the_type_in_order |-> \A k \in DOMAIN r.lis : r.out[k] = Exp(r.lis[k])]
Check(r) == CASE r.op = "live" -> Live(r) [] r.op = "flat" -> Flat(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
