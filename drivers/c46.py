"""C46: discovery of POWL models."""
import itertools

from vf import core, gens
from drivers import c09
from drivers.c10 import powl_from_pm

MODULE = "TrC46"
RULE = "logs of trees, mutated logs, random logs and logs without an obvious cut x representation x variant (tree, brute force, maximal, dynamic clustering) x filtering, and logs with every order of a partially ordered set of activities; non-trivial: the model has a loop or a partial order that is no sequence"
LABELS = ["a", "b", "c", "d", "e", "f"]
VARIANTS = ["TREE", "MAXIMAL", "MAXIMAL", "BRUTE_FORCE", "DYNAMIC_CLUSTERING", "DYNAMIC_CLUSTERING"]


def order(rng):
    """a partial order over 2..5 activities: transitively closed pairs of 1-based indices"""
    n = rng.randint(2, 5)
    p = rng.choice([.25, .4, .6])
    e = {(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if rng.random() < p}
    while True:
        f = e | {(a, d) for a, b in e for c, d in e if b == c}
        if f == e:
            break
        e = f
    labs = rng.sample(LABELS, n)
    return ["po", [[["act", x] for x in labs], sorted(map(list, e))]]


def extensions(t):
    labs = [c[1] for c in t[1][0]]
    pre = {i: {a for a, b in t[1][1] if b == i} for i in range(1, len(labs) + 1)}
    out = []

    def go(done):
        if len(done) == len(labs):
            out.append([labs[i - 1] for i in done])
        for i in pre:
            if i not in done and pre[i] <= set(done):
                go(done + [i])
    go([])
    return out


def blocks(rng):
    """a partial order whose nodes are activities, choices of activities or optional activities"""
    while True:
        t = order(rng)
        labs = rng.sample(["a", "b", "c", "d", "e", "f", "g", "h"], 8)
        ch = t[1][0]
        for i in range(len(ch)):
            x = rng.random()
            ch[i] = ["act", labs.pop()] if x < .5 or len(labs) < 2 * (len(ch) - i) + 1 else ["xor", [["act", labs.pop()], ["act", labs.pop()]]] if x < .8 else ["xor", [["act", labs.pop()], ["tau", 0]]]
        ws = words(t)
        if len(ws) <= 70:
            return t, ws


def words(t):
    ch = t[1][0]
    ex = extensions(["po", [[["act", i] for i in range(len(ch))], t[1][1]]])
    alts = [[[c[1]]] if c[0] == "act" else [[y[1]] if y[0] == "act" else [] for y in c[1]] for c in ch]
    return [list(w) for w in sorted({tuple(a for i in e for a in c[i]) for e in ex for c in itertools.product(*alts)})]


def mined(rng):
    x = rng.random()
    if x < .18:
        ws = c09.hard(rng)
    elif x < .4:
        # the orders of a partially ordered set, with missing activities and repetitions
        ws = rng.sample(ex := extensions(order(rng)), min(len(ex), rng.randint(1, 6)))
        ws = [[a for a in w for _ in range(rng.choice([1, 1, 1, 1, 1, 1, 1, 0, 2]))] for w in ws]
    else:
        t = gens.rtree(rng, LABELS[:rng.randint(2, 6)], rng.randint(1, 6), tau=.2, dup=rng.random() < .4)
        ws = []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .7:
                ws.append(gens.mutate_word(rng, gens.words_of_tree(rng, t)[:7], LABELS[:5], rng.choice([0, .1, .25])))
            else:
                ws.append([rng.choice(LABELS[:rng.choice([1, 2, 3, 5])]) for _ in range(rng.randint(0, 6))])
    ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 4))]
    return ws


def cases(rng, tier):
    n = 420 if tier == "quick" else 3000
    for i in range(n):
        df = rng.random() < .3
        v = rng.choice(VARIANTS)
        if i % 8 == 1:
            t, ws = blocks(rng)
            rng.shuffle(ws)
            yield {"k": "redis", "powl": t, "ws": ws, "df": df and all(ws), "v": v if v != "TREE" else "MAXIMAL"}
            continue
        if i % 8 == 5:
            t = order(rng)
            ws = extensions(t)
            rng.shuffle(ws)
            if len(ws) > 24:
                ws = ws[:rng.choice([24, 40, 60])]
            if rng.random() < .25:
                ws = ws[:-1] or ws
            yield {"k": "redis", "powl": t, "ws": ws, "df": df, "v": v if v != "TREE" else "MAXIMAL"}
            continue
        ws = mined(rng)
        if df:
            ws = [w or ["a"] for w in ws]
        yield {"k": "mine", "ws": ws, "df": df, "v": v, "filter": rng.choice([0.0] * 6 + [.2, .5, .9]),
               "ratio": rng.choice([None, None, None, 1.0, .6, .8]) if v == "DYNAMIC_CLUSTERING" else None, "keys": rng.random() < .15}


def run(case):
    import pm4py
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    log = gens.word_log(case["ws"])
    keys, kw = {}, {}
    if case.get("keys"):
        keys = {"a": "act"}
        kw["activity_key"] = "act"
    obj = gens.to_df(log, keys, order=gens.time_order(log)) if case["df"] else gens.to_eventlog(log, keys)
    v = V[case["v"]]
    if case["k"] == "redis":
        return {"op": "redis", "ws": case["ws"], "orig": case["powl"], "powl": powl_from_pm(pm4py.discover_powl(obj, variant=v))}
    if case["ratio"] is not None:
        kw["order_graph_filtering_threshold"] = case["ratio"]
    p = pm4py.discover_powl(obj, variant=v, filtering_weight_factor=case["filter"], **kw)
    exact = case["filter"] == 0 and case["ratio"] in (None, 1.0)
    ws = case["ws"]
    single = ws[0] if ws[0] and all(w == ws[0] for w in ws) and len(set(ws[0])) == len(ws[0]) else []
    return {"op": "mine", "ws": ws, "exact": exact, "powl": powl_from_pm(p), "net": gens.net_from_pm(*pm4py.convert_to_petri_net(p)), "single": single}


def nontrivial(case, evs):
    def deep(t):
        if t[0] in ("act", "tau"):
            return False
        if t[0] == "loop":
            return True
        if t[0] == "po":
            n = len(t[1][0])
            return len(t[1][1]) < n * (n - 1) // 2 or any(map(deep, t[1][0]))
        return any(map(deep, t[1]))
    return any(deep(e["powl"]) for e in evs if "powl" in e)
