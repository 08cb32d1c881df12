"""Random abstract inputs (nets, trees, logs) and their encodings as pm4py objects.  Independent of pm4py's own algorithms."""
import datetime, itertools

# ------------------------------------------------------------------------------------------------ trees
OPS = ["seq", "xor", "par", "loop"]


def rtree(rng, labels, size, ops=None, tau=0.15, dup=False, maxch=4, opt=0.12):
    """A random process tree with about `size` leaves; labels are used once each unless dup."""
    ops = ops or OPS
    pool = list(labels)
    if not dup:
        rng.shuffle(pool)

    def leaf():
        if rng.random() < tau or (not dup and not pool):
            return ["tau", 0]
        return ["act", rng.choice(labels) if dup else pool.pop()]

    def build(n):
        if n <= 1:
            x = leaf()
            return x if x[0] == "tau" or rng.random() >= opt or "xor" not in ops else ["xor", [x, ["tau", 0]] if rng.random() < .5 else [["tau", 0], x]]
        op = rng.choice(ops)
        k = (2 if rng.random() < .75 else 3) if op == "loop" and n > 2 else 2 if op == "loop" else rng.randint(2, min(maxch, n))
        cuts = sorted(rng.sample(range(1, n), k - 1)) if n > k else list(range(1, k))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [max(n, k)])]
        return [op, [build(p) for p in parts]]

    return build(size)


def tree_size(t):
    return 1 if t[0] in ("act", "tau") else 1 + sum(tree_size(c) for c in t[1])


def tree_labels(t):
    if t[0] == "act":
        return {t[1]}
    if t[0] == "tau":
        return set()
    return set().union(*[tree_labels(c) for c in t[1]])


def tree_to_pm(t, parent=None):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    m = {"seq": Operator.SEQUENCE, "xor": Operator.XOR, "par": Operator.PARALLEL, "loop": Operator.LOOP,
         "or": Operator.OR, "ilv": Operator.INTERLEAVING}
    if t[0] == "act":
        return ProcessTree(label=t[1], parent=parent)
    if t[0] == "tau":
        return ProcessTree(parent=parent)
    n = ProcessTree(operator=m[t[0]], parent=parent)
    for c in t[1]:
        n.children.append(tree_to_pm(c, n))
    return n


def tree_from_pm(p):
    from pm4py.objects.process_tree.obj import Operator
    m = {Operator.SEQUENCE: "seq", Operator.XOR: "xor", Operator.PARALLEL: "par", Operator.LOOP: "loop",
         Operator.OR: "or", Operator.INTERLEAVING: "ilv"}
    if p.operator is None:
        if p.children:
            raise ValueError("leaf with children")
        return ["tau", 0] if p.label is None else ["act", str(p.label)]
    if not p.children:
        raise ValueError("operator without children")
    return [m[p.operator], [tree_from_pm(c) for c in p.children]]


def words_of_tree(rng, t, maxlen=30):
    """One random run of the tree (used to make interesting traces, never as an oracle)."""
    k = t[0]
    if k == "act":
        return [t[1]]
    if k == "tau":
        return []
    if k == "seq":
        return [a for c in t[1] for a in words_of_tree(rng, c)]
    if k == "xor":
        return words_of_tree(rng, rng.choice(t[1]))
    if k in ("par", "or", "ilv"):
        ch = list(t[1])
        if k == "or":
            ch = [c for c in ch if rng.random() < 0.6] or [rng.choice(ch)]
        ws = [words_of_tree(rng, c) for c in ch]
        if k == "ilv":
            rng.shuffle(ws)
            return [a for w in ws for a in w]
        out = []
        while any(ws):
            w = rng.choice([w for w in ws if w])
            out.append(w.pop(0))
        return out
    if k == "loop":
        out = words_of_tree(rng, t[1][0])
        while rng.random() < 0.4 and len(out) < maxlen:
            out += words_of_tree(rng, rng.choice(t[1][1:])) + words_of_tree(rng, t[1][0])
        return out
    raise ValueError(k)


def mutate_word(rng, w, labels, p=0.5):
    w = list(w)
    while rng.random() < p:
        x = rng.random()
        if x < 0.35 and w:
            w.pop(rng.randrange(len(w)))
        elif x < 0.7:
            w.insert(rng.randint(0, len(w)), rng.choice(labels))
        elif len(w) > 1:
            i, j = rng.sample(range(len(w)), 2)
            w[i], w[j] = w[j], w[i]
    return w


def all_trees(nleaves, ntau=0, withor=False):
    """All process trees with at most nleaves leaves (labels a, b, .. from left to right, at most ntau silent), enumerated by TLC."""
    from vf import core
    return core.gen("GenTrees", env={"NLEAVES": str(nleaves), "NTAU": str(ntau), "WITHOR": "1" if withor else "0", "EMIT": "1"})


# ------------------------------------------------------------------------------------------------ nets
def net_of_tree(t):
    """A block-structured workflow net of the tree (plain construction, every operator fenced by silent transitions)."""
    P, T = [0], []

    def place():
        P[0] += 1
        return P[0] - 1

    def tr(lab, pre, post):
        T.append((lab, list(pre), list(post)))

    def go(t, i, o):
        k = t[0]
        if k == "act":
            tr(t[1], [i], [o])
        elif k == "tau":
            tr("", [i], [o])
        elif k == "seq":
            x = i
            for n, c in enumerate(t[1]):
                y = o if n == len(t[1]) - 1 else place()
                go(c, x, y)
                x = y
        elif k == "xor":
            for c in t[1]:
                a, b = place(), place()
                tr("", [i], [a])
                go(c, a, b)
                tr("", [b], [o])
        elif k == "par":
            ab = [(place(), place()) for _ in t[1]]
            tr("", [i], [a for a, b in ab])
            for c, (a, b) in zip(t[1], ab):
                go(c, a, b)
            tr("", [b for a, b in ab], [o])
        elif k == "loop":
            a, b = place(), place()
            tr("", [i], [a])
            go(t[1][0], a, b)
            for c in t[1][1:]:
                go(c, b, a)
            tr("", [b], [o])
        else:
            raise ValueError(k)

    s, e = place(), place()
    # the root in/out places must stay source and sink
    a, b = place(), place()
    tr("", [s], [a])
    go(t, a, b)
    tr("", [b], [e])
    n = P[0]

    def vec(l):
        v = [0] * n
        for p in l:
            v[p] += 1
        return v

    return {"t": [{"lab": l, "pre": vec(x), "post": vec(y)} for l, x, y in T], "im": vec([s]), "fm": vec([e])}


def enabled(t, m):
    return all(a >= b for a, b in zip(m, t["pre"]))


def fire(t, m):
    return tuple(a - b + c for a, b, c in zip(m, t["pre"], t["post"]))


def reach(net, cap=150):
    """Reachable markings (None if more than cap); only used to select inputs."""
    seen = {tuple(net["im"])}
    st = list(seen)
    while st:
        m = st.pop()
        for t in net["t"]:
            if enabled(t, m):
                n = fire(t, m)
                if n not in seen:
                    if len(seen) >= cap or max(n) > 30:
                        return None
                    seen.add(n)
                    st.append(n)
    return seen


def final_reachable(net, cap=150):
    r = reach(net, cap)
    return r is not None and tuple(net["fm"]) in r


def sound(net, cap=150):
    """Bounded, proper completion and option to complete (only used to select inputs)."""
    r = reach(net, cap)
    fm = tuple(net["fm"])
    if r is None or fm not in r or any(m != fm and all(a >= b for a, b in zip(m, fm)) for m in r):
        return False
    good = {fm}
    ch = True
    while ch:
        ch = False
        for m in r - good:
            if any(enabled(t, m) and fire(t, m) in good for t in net["t"]):
                good.add(m)
                ch = True
    return good == r


def unfence(rng, net, p=0.7):
    """Fuses some silent single-in/single-out transitions to get nets with fewer silent steps (series fusion)."""
    import copy
    net = copy.deepcopy(net)
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(net["t"]):
            if t["lab"] == "" and sum(t["pre"]) == 1 and sum(t["post"]) == 1 and rng.random() < p:
                a, b = t["pre"].index(1), t["post"].index(1)
                if a == b:
                    continue
                # a has only this consumer -> merge a into b
                cons = [j for j, u in enumerate(net["t"]) if u["pre"][a]]
                prod = [j for j, u in enumerate(net["t"]) if u["post"][a]]
                if cons == [i] and net["im"][a] == 0 and prod and net["fm"][a] == 0:
                    for u in net["t"]:
                        u["post"][b] += u["post"][a]
                    net["t"].pop(i)
                    for u in net["t"]:
                        u["pre"].pop(a)
                        u["post"].pop(a)
                    net["im"].pop(a)
                    net["fm"].pop(a)
                    changed = True
                    break
    return net


def rnet(rng, np_, nt, labels, maxw=1, silent=0.2, tokens=1):
    """A fully random net."""
    t = []
    for i in range(nt):
        pre, post = [0] * np_, [0] * np_
        for p in rng.sample(range(np_), min(np_, rng.choice([0, 1, 1, 1, 2, 2, 3]))):
            pre[p] = rng.randint(1, maxw)
        for p in rng.sample(range(np_), min(np_, rng.choice([0, 1, 1, 1, 2, 2, 3]))):
            post[p] = rng.randint(1, maxw)
        if not any(pre) and rng.random() < 0.9:
            pre[rng.randrange(np_)] = 1
        t.append({"lab": "" if rng.random() < silent else rng.choice(labels), "pre": pre, "post": post})
    im = [0] * np_
    for _ in range(rng.randint(1, tokens)):
        im[rng.randrange(np_)] += 1
    return {"t": t, "im": im, "fm": [0] * np_}


def rnet_bounded(rng, np_, nt, labels, maxw=1, silent=0.2, tokens=1, cap=60, tries=200, minreach=3):
    """Random bounded net whose final marking is one of its reachable markings."""
    for _ in range(tries):
        n = rnet(rng, np_, nt, labels, maxw, silent, tokens)
        r = reach(n, cap)
        if r is None or len(r) < minreach:
            continue
        n["fm"] = list(rng.choice(sorted(r)))
        return n
    return None


def perturb(rng, net, labels, cap=120):
    """Adds a place, an arc, or a transition to a net, keeping it bounded with reachable final marking (None if not)."""
    import copy
    for _ in range(30):
        n = copy.deepcopy(net)
        x = rng.random()
        if x < 0.35:
            for u in n["t"]:
                u["pre"].append(0)
                u["post"].append(0)
            n["im"].append(rng.choice([0, 0, 1]))
            n["fm"].append(0)
            a, b = rng.choice(n["t"]), rng.choice(n["t"])
            a["post"][-1] = 1
            b["pre"][-1] = 1
        elif x < 0.7:
            np_ = len(n["im"])
            pre, post = [0] * np_, [0] * np_
            pre[rng.randrange(np_)] = 1
            post[rng.randrange(np_)] = 1
            n["t"].append({"lab": "" if rng.random() < 0.3 else rng.choice(labels), "pre": pre, "post": post})
        else:
            u = rng.choice(n["t"])
            p = rng.randrange(len(n["im"]))
            k = rng.choice(["pre", "post"])
            u[k][p] = 1 - min(u[k][p], 1)
            if not any(u["pre"]):
                continue
        r = reach(n, cap)
        if r and tuple(n["fm"]) in r:
            return n
        if r and rng.random() < 0.3 and len(r) > 2:
            n["fm"] = list(rng.choice(sorted(r)))
            return n
    return None


PLETTERS = ["p" + a + b for a in "abcdefghijklmnopqrstuvwxyz" for b in "xyzuvw"]


def pname(i):
    return PLETTERS[i]


def net_to_pm(net, kind="classic"):
    """abstract net -> (PetriNet, im, fm, places, transitions), in index order"""
    from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetInhibitorNet, InhibitorNet, ResetNet
    from pm4py.objects.petri_net.utils import petri_utils
    N = ResetInhibitorNet if kind == "xreset" else PetriNet
    pn = N("net")
    ps = [PetriNet.Place(pname(i)) for i in range(len(net["im"]))]
    for p in ps:
        pn.places.add(p)
    ts = []
    for j, t in enumerate(net["t"]):
        tr = PetriNet.Transition("t%02d" % j, t["lab"] or None)
        pn.transitions.add(tr)
        ts.append(tr)
        for i, w in enumerate(t["pre"]):
            if w:
                petri_utils.add_arc_from_to(ps[i], tr, pn, weight=w)
        for i, w in enumerate(t["post"]):
            if w:
                petri_utils.add_arc_from_to(tr, ps[i], pn, weight=w)
        for i, w in enumerate(t.get("inh", [])):
            if w:
                petri_utils.add_arc_from_to(ps[i], tr, pn, type="inhibitor")
        for i, w in enumerate(t.get("rst", [])):
            if w:
                petri_utils.add_arc_from_to(ps[i], tr, pn, type="reset")
    mk = lambda v: Marking({ps[i]: k for i, k in enumerate(v) if k})
    return pn, mk(net["im"]), mk(net["fm"]), ps, ts


def net_from_pm(pn, im, fm, order=None, ext=False):
    """pm4py net -> abstract net; places and transitions sorted by name (ties by arrival)."""
    ps = sorted(pn.places, key=lambda p: str(p.name)) if order is None else order
    idx = {id(p): i for i, p in enumerate(ps)}
    n = len(ps)
    T = []
    for t in sorted(pn.transitions, key=lambda t: (str(t.name), str(t.label))):
        pre, post = [0] * n, [0] * n
        sp = {"inhibitor": [0] * n, "reset": [0] * n}
        for a in t.in_arcs:
            ty = a.properties.get("arctype") if ext else None
            if ty in sp:
                sp[ty][idx[id(a.source)]] = 1
            else:
                pre[idx[id(a.source)]] += a.weight
        for a in t.out_arcs:
            post[idx[id(a.target)]] += a.weight
        T.append({"lab": t.label if t.label is not None else "", "pre": pre, "post": post})
        if ext:
            T[-1].update(inh=sp["inhibitor"], rst=sp["reset"])

    def vec(m):
        v = [0] * n
        for p, k in m.items():
            if id(p) in idx:
                v[idx[id(p)]] += k
            elif k:
                raise ValueError("the marking refers to a place outside the net")
        return v

    return {"t": T, "im": vec(im), "fm": vec(fm)}


def net_consistent(pn):
    """Structural consistency of a pm4py net: arcs registered on both endpoints."""
    arcs = set(id(a) for a in pn.arcs)
    for a in pn.arcs:
        if id(a) not in set(id(x) for x in a.source.out_arcs) or id(a) not in set(id(x) for x in a.target.in_arcs):
            return False
        if not ((a.source in pn.places and a.target in pn.transitions) or (a.source in pn.transitions and a.target in pn.places)):
            return False
    for x in list(pn.places) + list(pn.transitions):
        for a in list(x.in_arcs) + list(x.out_arcs):
            if id(a) not in arcs:
                return False
    return True


def mvec(m, ps):
    return [m[p] if p in m else 0 for p in ps]


# ------------------------------------------------------------------------------------------------ logs
BASE = datetime.datetime(2021, 3, 1, 8, 0, 0, tzinfo=datetime.timezone.utc)      # a Monday


def ts(sec):
    return BASE + datetime.timedelta(seconds=sec)


def secs(x):
    """timestamp -> seconds since BASE"""
    import pandas as pd
    x = pd.Timestamp(x)
    if x.tzinfo is None:
        x = x.tz_localize("UTC")
    d = (x - pd.Timestamp(BASE)) / pd.Timedelta(seconds=1)
    if abs(d - round(d)) > 1e-6:
        raise ValueError("fractional seconds %r" % d)
    return int(round(d))


def rlog(rng, labels, ncases, maxlen, resources=("R1", "R2", "R3"), minlen=1, ties=0.2, maxdt=7200, share=True, attrs=True):
    """Random log: list of cases {id, ca, ev: [{a, t, r, v}]}, timestamps non-decreasing inside a case."""
    cases = []
    words = []
    for i in range(ncases):
        if words and share and rng.random() < 0.4:
            w = list(rng.choice(words))
        else:
            w = [rng.choice(labels) for _ in range(rng.randint(minlen, maxlen))]
        words.append(w)
        t = rng.randint(0, 4 * maxdt)
        ev = []
        for k, a in enumerate(w):
            if k:
                t += 0 if rng.random() < ties else rng.randint(1, maxdt)
            e = {"a": a, "t": t}
            if attrs:
                e["r"] = rng.choice(resources)
                e["v"] = rng.randint(0, 5)
            ev.append(e)
        c = {"id": "c%d" % i, "ev": ev}
        if attrs:
            c["ca"] = rng.choice(["x", "y", "z"])
        cases.append(c)
    return cases


def word_log(words):
    """Cases from words, with increasing timestamps."""
    return [{"id": "c%d" % i, "ev": [{"a": a, "t": 60 * i + 10 * k} for k, a in enumerate(w)]} for i, w in enumerate(words)]


KEYED = 0     # 1: activities, timestamps and cases under other attribute names; 2: and the usual name has other contents
CUSTOM = {"a": "act", "t": "when", "case": "CASE"}


def kw(obj):
    """the arguments that tell the simplified functions about the attribute names of this case's log"""
    import pandas as pd
    if not KEYED:
        return {}
    d = {"activity_key": "act", "timestamp_key": "when"}
    if isinstance(obj, pd.DataFrame):
        d["case_id_key"] = "CASE"
    return d


def kp(obj):
    """the same as parameters of the algorithms"""
    n = {"activity_key": "activity_key", "timestamp_key": "timestamp_key", "case_id_key": "case_id_key"}
    return {"pm4py:param:" + n[k]: v for k, v in kw(obj).items()}


def to_eventlog(cases, keys=None):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    k = dict(a="concept:name", t="time:timestamp", r="org:resource", v="val", s="start_timestamp", case="concept:name", ca="cattr", i="eid")
    if KEYED:
        k.update({x: CUSTOM[x] for x in "at"})
    k.update(keys or {})
    log = EventLog()
    for c in cases:
        tr = Trace()
        tr.attributes[k["case"]] = c["id"]
        if "ca" in c:
            tr.attributes[k["ca"]] = c["ca"]
        for e in c["ev"]:
            d = {k["a"]: e["a"], k["t"]: ts(e["t"])}
            if KEYED == 2:
                d.setdefault("concept:name", "decoy")
            for x in ("r", "v", "i"):
                if x in e:
                    d[k[x]] = e[x]
            if "s" in e:
                d[k["s"]] = ts(e["s"])
            tr.append(Event(d))
        log.append(tr)
    return log


def rows(cases, keys=None, order=None):
    """Event rows (dicts with case: columns); order: list of case indices giving the interleaving of rows."""
    k = dict(a="concept:name", t="time:timestamp", r="org:resource", v="val", s="start_timestamp", case="case:concept:name", ca="case:cattr", i="eid")
    if KEYED:
        k.update(CUSTOM)
    k.update(keys or {})
    out = []
    pos = [0] * len(cases)
    if order is None:
        order = [i for i, c in enumerate(cases) for _ in c["ev"]]
    for i in order:
        c = cases[i]
        e = c["ev"][pos[i]]
        pos[i] += 1
        d = {k["case"]: c["id"], k["a"]: e["a"], k["t"]: ts(e["t"])}
        if KEYED == 2:
            d.setdefault("concept:name", "decoy")
        for x in ("r", "v", "i"):
            if x in e:
                d[k[x]] = e[x]
        if "s" in e:
            d[k["s"]] = ts(e["s"])
        if "ca" in c:
            d[k["ca"]] = c["ca"]
        out.append(d)
    return out


def to_df(cases, keys=None, order=None):
    import pandas as pd
    r = rows(cases, keys, order)
    k = dict(a="concept:name", t="time:timestamp", case="case:concept:name", s="start_timestamp")
    if KEYED:
        k.update(CUSTOM)
    k.update(keys or {})
    df = pd.DataFrame(r, columns=None if r else [k["case"], k["a"], k["t"]])
    if len(df):
        df[k["t"]] = pd.to_datetime(df[k["t"]], utc=True)
        if k["s"] in df.columns:
            df[k["s"]] = pd.to_datetime(df[k["s"]], utc=True)
    return df


def to_stream(cases, keys=None, order=None):
    from pm4py.objects.log.obj import EventStream, Event
    return EventStream([Event(r) for r in rows(cases, keys, order)])


def interleaving(rng, cases):
    o = [i for i, c in enumerate(cases) for _ in c["ev"]]
    rng.shuffle(o)
    return o


def time_order(cases):
    """Row order by timestamp (stable by case index): what reading a time-sorted table would give."""
    xs = [(e["t"], i, k) for i, c in enumerate(cases) for k, e in enumerate(c["ev"])]
    xs.sort()
    return [i for _, i, _ in xs]


def frac(x, maxden=100000):
    """float -> [num, den] if it is (numerically) a simple fraction; raises otherwise"""
    from fractions import Fraction
    f = Fraction(float(x)).limit_denominator(maxden)
    if abs(float(f) - float(x)) > 1e-7 * max(1.0, abs(float(x))):
        raise ValueError("not a simple fraction: %r" % (x,))
    return [f.numerator, f.denominator]


def words_upto(net, k, cap):
    """The pairs (marking, word) with words of length <= k, at most cap of them (a size estimate for generators)."""
    seen = {(tuple(net["im"]), ())}
    todo = list(seen)
    while todo and len(seen) < cap:
        m, w = todo.pop()
        for t in net["t"]:
            if enabled(t, m):
                w2 = w + (t["lab"],) if t["lab"] else w
                if len(w2) <= k:
                    x = (tuple(fire(t, m)), w2)
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
    return seen
