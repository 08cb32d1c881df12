---- MODULE TrC44 ----
\* C44: relabelling, encoding, lifting, reducing and clustering logs
\* w: the cases [id, ca, ev, la]; ev: events [a, t, r, v, i, p, q, z] (i unique, "" a missing attribute), la: attributes lifted to the case
EXTENDS Tk, SequencesExt
VARIABLE l
Events(r) == Flatten([c \in DOMAIN r.w |-> r.w[c].ev])
Word(c) == [i \in DOMAIN c.ev |-> c.ev[i].a]
ActsOf(r) == {e.a : e \in Range(Events(r))}
Core(e) == [a |-> e.a, t |-> e.t, r |-> e.r, v |-> e.v, i |-> e.i]
RowsOf(S, c) == FilterSeq(S, LAMBDA x : x.c = c)

\* ---- shorter names: a bijection, the more frequent the earlier its code A, B, .., Z, AA, AB, ..
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Code(k) == IF k <= 26 THEN Letters[k] ELSE Letters[(k - 1) \div 26] \o Letters[((k - 1) % 26) + 1]
Alphabet(r) ==
  LET N == Cardinality(Range(r.map))
      Old(new) == (CHOOSE x \in Range(r.map) : x[1] = new)[2]
      Freq(a) == Count([i \in DOMAIN r.rows |-> r.rows[i].a], a)
  IN  [codes |-> {x[1] : x \in Range(r.map)} = {Code(k) : k \in 1..N},
       bijection |-> {x[2] : x \in Range(r.map)} = {e.a : e \in Range(r.rows)} /\ Cardinality({x[2] : x \in Range(r.map)}) = N /\ NoDup(r.map),
       frequent_first |-> \A k \in 1..(N - 1) : Freq(Old(Code(k))) >= Freq(Old(Code(k + 1))),
       relabelled |-> Len(r.out) = Len(r.rows) /\ \A i \in DOMAIN r.rows : [r.out[i] EXCEPT !.a = Old(@)] = r.rows[i]]

\* ---- attributes that are constant in every case move to the case
Get(e, x) == CASE x = "p" -> e.p [] x = "q" -> e.q [] x = "z" -> e.z [] x = "v" -> ToString(e.v) [] x = "i" -> ToString(e.i)
Constant(r, x) == \A c \in Range(r.w) : \A e \in Range(c.ev) : Get(e, x) # "" /\ Get(e, x) = Get(c.ev[1], x)
Without(e, K) == [e EXCEPT !.p = IF "p" \in K THEN "" ELSE @, !.q = IF "q" \in K THEN "" ELSE @, !.z = IF "z" \in K THEN "" ELSE @,
                           !.v = IF "v" \in K THEN -999999 ELSE @, !.i = IF "i" \in K THEN -999999 ELSE @]
Lifted(r, K, drop) == [c \in DOMAIN r.w |-> [r.w[c] EXCEPT !.ev = [j \in DOMAIN @ |-> Without(@[j], IF drop THEN K ELSE {})],
                                                             !.la = [x \in DOMAIN @ |-> IF x \in K THEN Get(r.w[c].ev[1], x) ELSE ""]]]
Move(r) ==
  LET X == Lifted(r, {x \in {"p", "q", "z", "v", "i"} : Constant(r, x)}, TRUE)
  IN  [moved |-> r.out = X, copy |-> r.after = (IF r.copy THEN r.w ELSE X)]
Lift(r) == [lifted |-> r.out = Lifted(r, {x \in {"p", "q", "z"} \ Range(r.ignore) : Constant(r, x)}, ~r.retain)]

\* ---- a dataframe read as a log
Wrapper(r) ==
  LET E(c) == LET K == RowsOf(r.rows, c) IN [j \in DOMAIN K |-> Core(K[j])]
      T(c) == [id |-> c, ca |-> RowsOf(r.rows, c)[1].ca, ev |-> E(c), n |-> Len(E(c)), first |-> E(c)[1], last |-> E(c)[Len(E(c))]]
      X == [k \in DOMAIN r.ord |-> T(r.ord[k])]
  IN  [size |-> r.n = Len(r.ord), iterated |-> r.out = X, indexed |-> r.at = X, listed |-> r.list = X, from_the_end |-> r.back = Reverse(X)]

\* ---- reductions
OneVar(r) ==
  LET F == FilterSeq([c \in DOMAIN r.w |-> c], LAMBDA c : \A d \in 1..(c - 1) : Word(r.w[d]) # Word(r.w[c]))
  IN  [first_of_each |-> SameBag(r.out, [k \in DOMAIN F |-> r.w[F[k]]]),
       counted |-> \A k \in DOMAIN r.out : r.num[k] = Cardinality({c \in DOMAIN r.w : Word(r.w[c]) = Word(r.out[k])})]
OneAttr(r) == [kept |-> r.out = [c \in DOMAIN r.w |-> [j \in DOMAIN r.w[c].ev |-> <<r.w[c].ev[j].r, 1>>]]]
FirstOf(c, a) == LET S == {j \in DOMAIN c.ev : c.ev[j].a = a} IN IF S = {} THEN 0 ELSE SetMin(S)
Until(W, a) == FilterSeq(W, LAMBDA c : FirstOf(c, a) > 1)
CutAt(c, a) == [c EXCEPT !.ev = SubSeq(@, 1, FirstOf(c, a) - 1)]
CutUntil(r) ==
  LET U == Until(r.w, r.a)
      Rest(c) == LET k == FirstOf(c, r.a) IN [j \in 1..(Len(c.ev) - k) |-> [c.ev[k + j] EXCEPT !.a = ""]]
  IN  [prefixes |-> r.out = [k \in DOMAIN U |-> [CutAt(U[k], r.a) EXCEPT !.ev = @ \o (IF r.future THEN Rest(U[k]) ELSE <<>>)]],
       times |-> r.times = [k \in DOMAIN U |-> LET j == FirstOf(U[k], r.a) IN IF r.dur THEN 10 * U[k].ev[j].i ELSE U[k].ev[j].t - U[k].ev[j - 1].t],
       input |-> r.after = r.w]
ToActs(r) ==
  LET In(a) == FilterSeq(r.w, LAMBDA c : FirstOf(c, a) > 0 /\ \A b \in Range(r.acts) \ {a} : FirstOf(c, b) = 0)
      Sub(a) == LET U == Until(In(a), a) IN [k \in DOMAIN U |-> CutAt(U[k], a)]
      Used == FilterSeq(r.acts, LAMBDA a : Sub(a) # <<>>)
  IN  [activities |-> r.used = Used, logs |-> r.out = [k \in DOMAIN Used |-> Sub(Used[k])]]

\* ---- classes and encodings
EvAtt(e, x) == CASE x = "a" -> e.a [] x = "z" -> e.z [] x = "q" -> e.q
ClassOf(r, c) ==
  CASE r.how = "presence" -> IF \E e \in Range(c.ev) : EvAtt(e, r.att) = r.val THEN "True" ELSE "False"
    [] r.how = "value" -> LET S == {j \in DOMAIN c.ev : EvAtt(c.ev[j], r.att) # ""} IN IF S = {} THEN "UNDEFINED" ELSE EvAtt(c.ev[SetMax(S)], r.att)
    [] OTHER -> IF c.ev[Len(c.ev)].t - c.ev[1].t > 1000 * r.n THEN "GREATER" ELSE "LESSEQUAL"
Classes(r) ==
  [target |-> Len(r.target) = Len(r.w) /\ \A c \in DOMAIN r.w : r.target[c] + 1 \in DOMAIN r.classes /\ r.classes[r.target[c] + 1] = ClassOf(r, r.w[c]),
   classes |-> NoDup(r.classes) /\ Range(r.classes) = {ClassOf(r, c) : c \in Range(r.w)}]
Encoded(r) ==
  LET V(e, x) == CASE x = "v" -> e.v [] x = "i" -> e.i [] OTHER -> -999999
      Row(c, n) == <<c + 6>> \o Flatten([j \in 1..n |-> [k \in DOMAIN r.atts |-> V(r.w[c].ev[j], r.atts[k])]])
      N == SetMax({Len(c.ev) : c \in Range(r.w)})
      Pad(s) == s \o [k \in 1..(1 + N * Len(r.atts) - Len(s)) |-> 0]
  IN  [rows |-> r.out = Flatten([c \in DOMAIN r.w |-> IF r.concat THEN [n \in 1..Len(r.w[c].ev) |-> Pad(Row(c, n))] ELSE <<Pad(Row(c, Len(r.w[c].ev)))>>]),
       columns |-> r.cols = <<"num">> \o Flatten([j \in 1..N |-> r.atts])]
Chars(r) ==
  LET Inj(m) == Cardinality({x[2] : x \in Range(m)}) = Len(m) /\ {x[1] : x \in Range(m)} = ActsOf(r) /\ NoDup(m) /\ {x[2] : x \in Range(m)} \cap Range(r.bad) = {}
      Ch(a) == (CHOOSE x \in Range(r.map) : x[1] = a)[2]
      Enc(s) == [j \in DOMAIN s |-> Ch(s[j])]
  IN  [one_char_each |-> Inj(r.map), of_two_logs |-> Inj(r.map2), encoded |-> r.out = [c \in DOMAIN r.w |-> Enc(Word(r.w[c]))],
       unknown_left_out |-> r.partial = [c \in DOMAIN r.w |-> Enc(FilterSeq(Word(r.w[c]), LAMBDA a : a \in Range(r.part)))]]
FirstOcc(s) == LET P == FilterSeq([i \in DOMAIN s |-> i], LAMBDA i : \A j \in 1..(i - 1) : s[j] # s[i]) IN [k \in DOMAIN P |-> s[P[k]]]
Labels(r) ==
  LET E == Events(r)
      Q == FilterSeq([i \in DOMAIN E |-> E[i].q], LAMBDA x : x # "")
      W == [c \in DOMAIN r.w |-> Word(r.w[c])]
      V == FirstOcc(W)
  IN  [labels |-> r.labels = FirstOcc(Q), counted |-> Range(r.counted) = {<<x, Count(Q, x)>> : x \in Range(Q)},
       variants |-> r.variants = V, members |-> r.members = [k \in DOMAIN V |-> LET M == FilterSeq(r.w, LAMBDA c : Word(c) = V[k]) IN [j \in DOMAIN M |-> M[j].id]],
       words |-> r.words = W, projected |-> r.pairs = [c \in DOMAIN r.w |-> [j \in DOMAIN r.w[c].ev |-> <<r.w[c].ev[j].a, r.w[c].ev[j].v, 2>>]]]
Index(r) == [events |-> r.idx = [i \in DOMAIN r.rows |-> i] /\ r.out = r.rows, cases |-> r.tout = r.w /\ r.tidx = [c \in DOMAIN r.w |-> [j \in DOMAIN r.w[c].ev |-> c]]]
Classifier(r) ==
  LET V(e) == CASE r.how = "search" -> e.r \o "+" \o e.a [] r.how = "search2" -> e.a \o "+" \o e.r [] OTHER -> e.a \o "+" \o (IF e.i % 2 = 1 THEN "complete" ELSE "start")
  IN  [value |-> r.cls = [c \in DOMAIN r.w |-> IF r.how = "none" THEN <<>> ELSE IF r.how = "trace" THEN <<r.w[c].ca \o "+" \o r.w[c].id>> ELSE [j \in DOMAIN r.w[c].ev |-> V(r.w[c].ev[j])]],
       key |-> r.key = (IF r.how = "none" THEN "" ELSE IF r.how = "trace" THEN "@@traceClassifier" ELSE "@@classifier"), rest |-> r.out = r.w]

\* ---- label splitting by context: events of one activity with the same context keep one label; labels are shared only along similar contexts
RECURSIVE Lev(_, _)
Lev(s, t) == IF s = <<>> THEN Len(t) ELSE IF t = <<>> THEN Len(s)
             ELSE IF s[1] = t[1] THEN Lev(Tail(s), Tail(t)) ELSE 1 + SetMin({Lev(Tail(s), t), Lev(s, Tail(t)), Lev(Tail(s), Tail(t))})
RECURSIVE Reach(_, _, _)
Reach(S, X, E) == LET Y == S \cup {y \in X : \E x \in S : <<x, y>> \in E} IN IF Y = S THEN S ELSE Reach(Y, X, E)
Contextual(r) ==
  LET Ctx(c, j) == LET s == Word(r.w[c]) IN SubSeq(s, Max2(1, j - r.pre), j - 1) \o SubSeq(s, j + 1, Min2(Len(s), j + r.suf))
      P == UNION {{<<c, j>> : j \in DOMAIN r.w[c].ev} : c \in DOMAIN r.w}
      A(p) == r.w[p[1]].ev[p[2]].a
      New(p) == r.out[p[1]][p[2]]
      C == [p \in P |-> Ctx(p[1], p[2])]
      Near(s, t) == LET m == Max2(Len(s), Len(t)) IN s # t /\ (IF m = 0 THEN TRUE ELSE (m - Lev(s, t)) * r.minw[2] > r.minw[1] * m)
      Target(a) == r.target = <<>> \/ a \in Range(r.target)
      Of(a) == {p \in P : A(p) = a}
      Split(a) == \E p \in Of(a) : New(p) # a
      Names(a) == {New(p) : p \in Of(a)}
      Size(a, n) == Cardinality({p \in Of(a) : New(p) = n})
      Name(a, k) == a \o r.suffix \o ToString(k)
      N(a) == Cardinality(Names(a))
  IN  [only_targets |-> \A a \in ActsOf(r) : Split(a) => Target(a),
       names |-> \A a \in ActsOf(r) : Split(a) => N(a) > 1 /\ Names(a) = {Name(a, k) : k \in 0..(N(a) - 1)},
       largest_first |-> \A a \in ActsOf(r) : Split(a) => \A k \in 1..(N(a) - 1) : Size(a, Name(a, k - 1)) >= Size(a, Name(a, k)),
       same_context |-> \A a \in ActsOf(r) : \A p, q \in Of(a) : C[p] = C[q] => New(p) = New(q),
       similar_contexts |-> \A a \in ActsOf(r) : Target(a) => LET X == {C[p] : p \in Of(a)}
                                                                 E == {x \in X \X X : Near(x[1], x[2])}
                                                             IN \A n \in Names(a) : LET Z == {C[p] : p \in {q \in Of(a) : New(q) = n}} IN Z \subseteq Reach({CHOOSE z \in Z : TRUE}, X, E),
       rest |-> r.rest = r.xrest /\ (r.acts = <<>> \/ r.acts = [i \in DOMAIN Events(r) |-> Events(r)[i].a])]

\* ---- events of a second log inserted into the cases of the first
Merge(r) ==
  LET X == r.rows \o Flatten([k \in DOMAIN r.rel |-> LET K == RowsOf(r.rows2, r.rel[k][2]) IN [j \in DOMAIN K |-> [K[j] EXCEPT !.c = r.rel[k][1]]]])
      Y == [i \in DOMAIN r.out |-> r.out[i].c]
  IN  [events |-> SameBag(r.out, X),
       sorted |-> \A i \in 1..(Len(r.out) - 1) : \/ Y[i] = Y[i + 1] /\ r.out[i].t <= r.out[i + 1].t
                                                 \/ Y[i] # Y[i + 1] /\ (CHOOSE k \in DOMAIN r.ord : r.ord[k] = Y[i]) < (CHOOSE k \in DOMAIN r.ord : r.ord[k] = Y[i + 1])]
Table(r) ==
  LET CA == Range(r.xcase) \cup {"case:concept:name"}
      Def == "case:cattr" \in Range(r.xcase)
      V(c) == <<c.id, IF Def THEN c.ca ELSE "", IF "val" \in Range(r.xcase) THEN ToString(c.ev[1].v) ELSE "">>
  IN  [case_columns |-> Range(r.ccols) = CA, event_columns |-> Range(r.ecols) = (Range(r.all) \ CA) \cup {"case:concept:name"},
       events |-> SameBag(r.eids, r.xe) /\ \A i \in DOMAIN r.eids : \E c \in Range(r.w) : c.id = r.ecase[i] /\ \E e \in Range(c.ev) : e.i = r.eids[i],
       order |-> r.form # "df" \/ r.eids = [i \in DOMAIN r.rows |-> r.rows[i].i],
       cases |-> r.cn = Len(r.w) /\ Range(r.ctab) = {V(c) : c \in Range(r.w)}]
Pick(r) ==
  LET O == FirstOcc([i \in DOMAIN r.rows |-> r.rows[i].c])
      m == Min2(r.n, Len(O))
      K == {r.out[i].c : i \in DOMAIN r.out}
  IN  [size |-> Cardinality(K) = m, complete |-> r.out = FilterSeq(r.rows, LAMBDA x : x.c \in K),
       deterministic |-> r.det => r.again = r.out /\ K = {O[1 + ((i * Len(O)) \div m) + (Len(O) \div (2 * m))] : i \in 0..(m - 1)}]
Cluster(r) ==
  LET All == Flatten(r.out)
  IN  [partition |-> SameBag(All, [c \in DOMAIN r.w |-> <<r.w[c].id, Word(r.w[c]), [j \in DOMAIN r.w[c].ev |-> r.w[c].ev[j].i]>>]),
       number |-> Len(r.out) <= r.n]
Check(r) ==
  CASE r.op = "alphabet" -> Alphabet(r) [] r.op = "move" -> Move(r) [] r.op = "lift" -> Lift(r) [] r.op = "wrapper" -> Wrapper(r) [] r.op = "onevar" -> OneVar(r) [] r.op = "oneattr" -> OneAttr(r)
    [] r.op = "until" -> CutUntil(r) [] r.op = "toact" -> ToActs(r) [] r.op = "classes" -> Classes(r) [] r.op = "encoded" -> Encoded(r) [] r.op = "chars" -> Chars(r) [] r.op = "labels" -> Labels(r)
    [] r.op = "index" -> Index(r) [] r.op = "classifier" -> Classifier(r) [] r.op = "contextual" -> Contextual(r) [] r.op = "merge" -> Merge(r) [] r.op = "table" -> Table(r) [] r.op = "pick" -> Pick(r)
    [] r.op = "cluster" -> Cluster(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, IF IsExc(Trace[l]) THEN ExcClause ELSE Check(Trace[l]))
Spec == Init /\ [][Next]_l
====
