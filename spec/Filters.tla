---- MODULE Filters ----
EXTENDS Tk
Hours == INSTANCE Times
\* A case is [id, ca, ev]; an event is [i, a, t, r, v]: identifier, activity, second, resource ("" when missing), value (NoV when missing).
NoV == -999999
Word(c) == [i \in DOMAIN c.ev |-> c.ev[i].a]
At(c, f) == [i \in DOMAIN c.ev |-> c.ev[i][f]]
Missing(f, x) == IF f = "v" THEN x = NoV ELSE x = ""
\* s occurs in W as a subsequence starting behind position p
RECURSIVE EF(_, _, _)
EF(W, s, p) == s = <<>> \/ \E i \in (p + 1)..Len(W) : W[i] = Head(s) /\ EF(W, Tail(s), i)
\* the same, with bounds on the elapsed time between consecutive matched events
RECURSIVE EFB(_, _, _, _, _)
EFB(W, T, s, b, p) ==
  \/ s = <<>>
  \/ \E i \in (p + 1)..Len(W) :
       /\ W[i] = Head(s)
       /\ (p > 0 => (T[i] - T[p] >= Head(b)[1] /\ T[i] - T[p] <= Head(b)[2]))
       /\ EFB(W, T, Tail(s), IF p > 0 THEN Tail(b) ELSE b, i)
Infix(W, s) == \E i \in 0..(Len(W) - Len(s)) : \A j \in DOMAIN s : W[i + j] = s[j]
Prefix(s, W) == Len(s) <= Len(W) /\ SubSeq(W, 1, Len(s)) = s
Suffix(s, W) == Len(s) <= Len(W) /\ SubSeq(W, Len(W) - Len(s) + 1, Len(W)) = s
\* pattern of activities and "..." (any sequence of activities)
RECURSIVE Match(_, _)
Match(W, p) == IF p = <<>> THEN W = <<>>
               ELSE IF Head(p) = "..." THEN \E i \in 0..Len(W) : Match(SubSeq(W, i + 1, Len(W)), Tail(p))
               ELSE W # <<>> /\ Head(W) = Head(p) /\ Match(Tail(W), Tail(p))
Duration(c) == IF c.ev = <<>> THEN 0 ELSE c.ev[Len(c.ev)].t - c.ev[1].t
Occ(c, a) == Cardinality({i \in DOMAIN c.ev : c.ev[i].a = a})
Res(c, a) == {c.ev[i].r : i \in {j \in DOMAIN c.ev : c.ev[j].a = a /\ c.ev[j].r # ""}}
VarN(L, c) == Cardinality({d \in DOMAIN L : Word(L[d]) = Word(L[c])})
\* r.f names the condition; its truth for case c of the log r.w
Holds(r, k) ==
  LET c == r.w[k]
      W == Word(c)
      n == Len(W)
      In(x, S) == x \in Range(S)
  IN CASE r.f = "start" -> n > 0 /\ In(W[1], r.vals)
       [] r.f = "end" -> n > 0 /\ In(W[n], r.vals)
       [] r.f = "start_nocc" -> Cardinality({d \in DOMAIN r.w : Word(r.w[d])[1] = W[1]}) >= r.x
       [] r.f = "end_nocc" -> Cardinality({d \in DOMAIN r.w : Word(r.w[d])[Len(r.w[d].ev)] = W[n]}) >= r.x
       [] r.f = "attr" -> \E i \in 1..n : In(c.ev[i][r.field], r.vals) /\ ~ Missing(r.field, c.ev[i][r.field])
       [] r.f = "cattr" -> In(c.ca, r.vals)
       [] r.f = "numeric" -> \E i \in 1..n : c.ev[i].v # NoV /\ c.ev[i].v >= r.lo /\ c.ev[i].v <= r.hi /\ (r.s1 # "" => c.ev[i].a = r.s1) /\ (r.s2 # "" => c.ev[i].r = r.s2)
       [] r.f = "variants" -> In(W, r.vals)
       [] r.f = "df" -> \E i \in 1..(n - 1) : In(<<W[i], W[i + 1]>>, r.vals)
       [] r.f = "targets" -> \E i \in 1..(n - 1) : In(<<W[i], c.ev[i + 1].r>>, r.vals)
       [] r.f = "ef" -> \E q \in Range(r.vals) : EF(W, q, 0)
       [] r.f = "efb" -> EFB(W, At(c, "t"), r.vals, r.bounds, 0)
       [] r.f = "next" -> Infix(W, r.vals)
       [] r.f = "contained" -> n > 0 /\ c.ev[1].t >= r.lo /\ c.ev[n].t <= r.hi
       [] r.f = "intersecting" -> n > 0 /\ c.ev[1].t <= r.hi /\ c.ev[n].t >= r.lo
       [] r.f = "attr_time" -> \E i \in 1..n : c.ev[i][r.field] = r.val /\ c.ev[i].t >= r.lo /\ c.ev[i].t <= r.hi
       [] r.f = "size" -> n >= r.lo /\ n <= r.hi
       [] r.f = "perf" -> n > 0 /\ Duration(c) >= r.lo /\ Duration(c) <= r.hi
       [] r.f = "perf_bh" -> n > 0 /\ LET d == Hours!Business(r.bh, c.ev[1].t, c.ev[n].t) IN d >= r.lo /\ d <= r.hi
       [] r.f = "rework" -> Occ(c, r.val) >= r.lo
       [] r.f = "rep" -> LET z == Cardinality({i \in 1..n : c.ev[i][r.field] = r.val}) IN z >= r.lo /\ z <= r.hi
       [] r.f = "path_perf" -> \E i \in 1..(n - 1) : W[i] = r.vals[1] /\ W[i + 1] = r.vals[2] /\ c.ev[i + 1].t - c.ev[i].t >= r.lo /\ c.ev[i + 1].t - c.ev[i].t <= r.hi
       [] r.f = "coverage" -> VarN(r.w, k) * r.den >= r.num * Len(r.w)
       [] r.f = "max_coverage" -> VarN(r.w, k) * r.den <= r.num * Len(r.w)
       [] r.f = "four_eyes" -> Res(c, r.vals[1]) # {} /\ Res(c, r.vals[2]) # {} /\ Res(c, r.vals[1]) \cap Res(c, r.vals[2]) = {}
       [] r.f = "same_person" -> Res(c, r.vals[1]) \cap Res(c, r.vals[2]) # {}
       [] r.f = "diff_persons" -> Cardinality(Res(c, r.val)) > 1
       [] r.f = "segments" -> \E p \in Range(r.vals) : Match(W, p)
       [] r.f = "prefixes" -> \E p \in Range(r.vals) : Prefix(p, W)
       [] r.f = "suffixes" -> \E p \in Range(r.vals) : Suffix(p, W)
Kept(r) == {k \in DOMAIN r.w : Holds(r, k) = r.pos}
\* events a cutting filter keeps of one case, as sequences of events (one per resulting case)
Sub(c, K) == FilterSeq(c.ev, LAMBDA e : e \in K)
RECURSIVE Between(_, _, _, _, _, _)
\* i: position, s: position of the open first event (0: none); result: sequence of subsequences
Between(c, A, B, same, i, s) ==
  IF i > Len(c.ev) THEN <<>>
  ELSE LET x == c.ev[i].a
       IN IF s > 0 /\ x \in B THEN <<SubSeq(c.ev, s, i)>> \o Between(c, A, B, same, i + 1, IF same THEN i ELSE 0)
          ELSE IF s = 0 /\ x \in A THEN Between(c, A, B, same, i + 1, i)
          ELSE Between(c, A, B, same, i + 1, s)
RECURSIVE Split(_, _, _, _, _)
\* split before ("this") or behind ("next") every occurrence of an activity in A; empty parts are dropped
Split(c, A, mode, i, cur) ==
  IF i > Len(c.ev) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET e == c.ev[i]
           emit == IF cur = <<>> THEN <<>> ELSE <<cur>>
       IN IF e.a \in A /\ mode = "this" THEN emit \o Split(c, A, mode, i + 1, <<e>>)
          ELSE IF e.a \in A THEN <<Append(cur, e)>> \o Split(c, A, mode, i + 1, <<>>)
          ELSE Split(c, A, mode, i + 1, Append(cur, e))
====
