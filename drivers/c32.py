"""C32: execution of BPMN diagrams."""
from vf import core, gens

MODULE = "TrC32"
RULE = "diagrams of every tree with at most 4 leaves (TLC-enumerated) and of random trees with embedded (nested) sub-processes, message and error boundary events and terminate ends, random unstructured gateway graphs (unsafe ones included); random executions, every node tried at every visited marking; non-trivial: more than one node enabled"
LABELS = ["a", "b", "c", "d", "e", "f"]


class Diagram:
    def __init__(self):
        self.n, self.f = [], []
        self.odd, self.depth = False, 0

    def node(self, ty, lab="", proc=0, att=0):
        self.n.append({"ty": ty, "lab": lab, "proc": proc, "att": att})
        return len(self.n)

    def flow(self, a, b):
        self.f.append([a, b])


def block(d, rng, t, proc, p):
    """build the diagram of a tree; (first, last) node; p: probabilities of decorations"""
    if t[0] not in ("act", "tau") and rng.random() < p["sub"] or t[0] == "act" and rng.random() < p["sub"] / 3:
        return sub(d, rng, t, proc, p)
    if t[0] == "act":
        x = d.node("task", t[1], proc)
        return x, x
    if t[0] == "tau":
        x = d.node("catch", "", proc)
        return x, x
    if t[0] == "seq":
        bs = [block(d, rng, c, proc, p) for c in t[1]]
        for x, y in zip(bs, bs[1:]):
            d.flow(x[1], y[0])
        return bs[0][0], bs[-1][1]
    if t[0] == "loop":
        i, o = d.node("xor-", "", proc), d.node("xor+", "", proc)
        b = block(d, rng, t[1][0], proc, p)
        d.flow(i, b[0]); d.flow(b[1], o)
        for c in t[1][1:]:
            b = block(d, rng, c, proc, p)
            d.flow(o, b[0]); d.flow(b[1], i)
        return i, o
    k = "and" if t[0] == "par" else "xor"
    i, o = d.node(k + "+", "", proc), d.node(k + "-", "", proc)
    for c in t[1]:
        b = block(d, rng, c, proc, p)
        d.flow(i, b[0]); d.flow(b[1], o)
    return i, o


def sub(d, rng, t, proc, p):
    s = d.node("sub", "", proc)
    st = d.node("start", "", s)
    d.depth += 1
    b = block(d, rng, t, s, {**p, "sub": p["sub"] / 2 if d.depth < 4 else 0})
    d.depth -= 1
    d.flow(st, b[0])
    last = b[1]
    outs = []
    if rng.random() < p.get("twice", 0):                # two tokens run to the end of the sub-process
        g, j = d.node("and+", "", s), d.node("xor-", "", s)
        d.flow(last, g); d.flow(g, j)
        x = d.node("task", "w%d" % s, s)
        d.flow(g, x)
        if rng.random() < .5:
            d.flow(x, j)
            last = j
        else:
            d.flow(x, d.node("end", "w%d" % s, s))
            last = j
        d.odd = True
    if rng.random() < p["err"]:
        g = d.node("xor+", "", s)
        d.flow(last, g)
        e, o = d.node("err", "e%d" % s, s), d.node("berr", "e%d" % s, proc, s)
        d.flow(g, e)
        outs.append(o)
        last = g
        if rng.random() < .5:
            outs.append(d.node("berr", "f%d" % s, proc, s))
        d.odd = True
    d.flow(last, d.node("term" if rng.random() < p["term"] else "end", "n%d" % s, s))
    if rng.random() < p["msg"]:
        for k in range(rng.randint(1, 2)):
            outs.append(d.node("bmsg", "m%d_%d" % (s, k), proc, s))
        d.odd = True
    if not outs:
        return s, s
    j = d.node("xor-", "", proc)
    d.flow(s, j)
    for o in outs:
        d.flow(o, j)
    return s, j


def of_tree(rng, t, p):
    d = Diagram()
    s = d.node("start")
    b = block(d, rng, t, 0, p)
    if rng.random() < p.get("twice", 0):                # two tokens enter the process
        g, j = d.node("and+"), d.node("xor-")
        d.flow(s, g); d.flow(g, j); d.flow(g, j)
        s, d.odd = j, True
    d.flow(s, b[0])
    d.flow(b[1], d.node("term" if rng.random() < p["term"] else "end"))
    return {"n": d.n, "f": d.f}, d.odd


def unstructured(rng):
    d = Diagram()
    s = d.node("start")
    n = rng.randint(3, 8)
    ns = []
    for i in range(n):
        ns.append(d.node(rng.choice(["task", "task", "xor+", "xor-", "and+", "and-", "or+", "or+"]), "t%d" % i))
    ends = [d.node(rng.choice(["end", "end", "term"]), "z%d" % i) for i in range(rng.randint(1, 2))]
    d.flow(s, ns[0])
    for i, x in enumerate(ns):
        k = rng.choice([2, 2, 2, 3, 3, 4, 5]) if d.n[x - 1]["ty"].endswith("+") else 1
        cand = [y for y in ns[i + 1:] + ends if True]
        if rng.random() < .25:
            cand += [y for y in ns[:i] if d.n[y - 1]["ty"] == "xor-"]
        for y in rng.sample(cand, min(k, len(cand))):
            d.flow(x, y)
    # only what the start event can reach
    seen = {1}
    while True:
        new = {y for x, y in d.f if x in seen} - seen
        if not new:
            break
        seen |= new
    keep = sorted(seen)
    return {"n": [d.n[i - 1] for i in keep], "f": [[keep.index(x) + 1, keep.index(y) + 1] for x, y in d.f if x in seen]}


def cases(rng, tier):
    P0 = {"sub": 0, "err": 0, "msg": 0, "term": 0}
    for t in gens.all_trees(4, 0) if tier == "quick" else gens.all_trees(4, 1):
        b, _ = of_tree(rng, t, P0)
        yield {"b": b, "tree": t, "seed": rng.randint(0, 10**6)}
    n = 260 if tier == "quick" else 4000
    for i in range(n):
        if rng.random() < .35:
            yield {"b": unstructured(rng), "tree": [], "seed": rng.randint(0, 10**6)}
        else:
            t = gens.rtree(rng, LABELS, rng.randint(1, 6), tau=.1, dup=rng.random() < .3)
            P = {"sub": rng.choice([0, .3, .6]), "err": rng.choice([0, .4]), "msg": rng.choice([0, .4]), "term": rng.choice([0, .3]), "twice": rng.choice([0, 0, .4])}
            b, odd = of_tree(rng, t, P)
            yield {"b": b, "tree": [] if odd else t, "seed": rng.randint(0, 10**6)}


def make(b):
    from pm4py.objects.bpmn.obj import BPMN
    D = BPMN.Gateway.Direction
    g = BPMN(process_id="top")
    xs = []
    for i, n in enumerate(b["n"], 1):
        a = {"id": "n%d" % i, "name": n["lab"], "process": "n%d" % n["proc"] if n["proc"] else "top"}
        ty = n["ty"]
        cls = {"start": BPMN.NormalStartEvent, "end": BPMN.NormalEndEvent, "term": BPMN.TerminateEndEvent, "err": BPMN.ErrorEndEvent, "task": BPMN.Task, "sub": BPMN.SubProcess,
               "catch": BPMN.IntermediateCatchEvent, "xor": BPMN.ExclusiveGateway, "and": BPMN.ParallelGateway, "or": BPMN.InclusiveGateway, "bmsg": BPMN.MessageBoundaryEvent, "berr": BPMN.ErrorBoundaryEvent}[ty.rstrip("+-")]
        if ty[-1] in "+-":
            a["gateway_direction"] = D.DIVERGING if ty[-1] == "+" else D.CONVERGING
        if n["att"]:
            a["activity"] = "n%d" % n["att"]
        x = cls(**a)
        g.add_node(x)
        xs.append(x)
    for k, (s, t) in enumerate(b["f"]):
        g.add_flow(BPMN.SequenceFlow(xs[s - 1], xs[t - 1], id="f%d" % k))
    return g, xs


def run(case):
    import random
    from pm4py.objects.bpmn import semantics
    from pm4py.objects.bpmn.util import bpmn_utils
    b = case["b"]
    g, xs = make(b)
    rng = random.Random(case["seed"])
    idx = {x: i + 1 for i, x in enumerate(xs)}
    vec = lambda m: [m[x] for x in xs]

    def safe(m):
        v = [m.get(x, 0) for x in xs]
        assert sum(v) == sum(m.values()), "tokens on foreign nodes"
        return v
    m = bpmn_utils.get_initial_marking(g)
    evs, ms, fired, word = [], [safe(m)], [], []
    done = False
    top = lambda i: b["n"][i]["proc"] == 0 and b["n"][i]["ty"] in ("end", "term", "err")
    for step in range(14):
        before = safe(m)
        en = sorted(idx[x] for x in semantics.enabled_nodes(g, m))
        outs = [semantics.execute(x, g, m) for x in xs]
        tr = [semantics.try_to_execute(x, g, m) for x in xs]
        evs.append({"op": "at", "b": b, "m": before, "enabled": en, "refused": [o is None for o in outs],
                    "exec": [[] if o is None or top(i) else [safe(y) for y in o] for i, o in enumerate(outs)],
                    "try": [[] if o is None or top(i) else [safe(y) for y in o] for i, o in enumerate(tr)], "after": safe(m)})
        done = not en and any(before[i] and top(i) for i in range(len(xs)))
        if not en or max(before) > 4:
            break
        i = rng.choice(en)
        nxt = outs[i - 1]
        if not nxt:
            break
        m = rng.choice(nxt)
        fired.append(i)
        ms.append(safe(m))
        if b["n"][i - 1]["ty"] == "task":
            word.append(b["n"][i - 1]["lab"])
    return evs + [{"op": "run", "b": b, "ms": ms, "fired": fired, "done": done, "tree": case["tree"], "word": word}]


def nontrivial(case, evs):
    return any(e["op"] == "at" and len(e["enabled"]) > 1 for e in evs)
