"""C05: alignments of traces against accepting Petri nets."""
from vf import core, gens
from drivers.c02 import LABELS

MODULE = "TrC05"
OWN_NAMES = 0.2
RULE = "bounded nets with reachable final marking x (runs, mutated runs, random words) x search variants x standard/custom costs; non-trivial: the optimal alignment has a deviation"
VARIANTS = ["VERSION_STATE_EQUATION_A_STAR", "VERSION_TWEAKED_STATE_EQUATION_A_STAR", "VERSION_DIJKSTRA_NO_HEURISTICS", "VERSION_DIJKSTRA_LESS_MEMORY"]
TWEAKED = "VERSION_TWEAKED_STATE_EQUATION_A_STAR"
CASE_TIMEOUT = 60
L2 = LABELS + ["x"]


def rand_net(rng, maxleaves=6, weights=True, cap=80):
    """(net, tree or None)"""
    x = rng.random()
    t = gens.rtree(rng, LABELS, rng.randint(1, maxleaves), dup=rng.random() < .4)
    net = gens.unfence(rng, gens.net_of_tree(t), rng.choice([0, .5, .9]))
    if gens.reach(net, cap) is None:
        return None, None
    if x < 0.5:
        return net, t
    if x < 0.8 or not weights:
        return gens.perturb(rng, net, LABELS, cap), t
    return gens.rnet_bounded(rng, rng.randint(2, 4), rng.randint(2, 5), LABELS, maxw=rng.choice([1, 2]), tokens=rng.randint(1, 3), cap=40), None


def rand_words(rng, net, t, k, maxlen=8):
    out = []
    for _ in range(k):
        if t is not None and rng.random() < .8:
            w = gens.words_of_tree(rng, t, 6)[:maxlen]
            if rng.random() < .7:
                w = gens.mutate_word(rng, w, L2, .6)
        else:
            w = [rng.choice(L2) for _ in range(rng.randint(0, 5))]
        out.append(w[:maxlen])
    return out


def cases(rng, tier):
    n = 450 if tier == "quick" else 3000
    while n:
        net, t = rand_net(rng)
        if net is None:
            continue
        n -= 1
        ws = rand_words(rng, net, t, 2)
        yield {"net": net, "ws": ws, "custom": rng.random() < .35, "seed": rng.randint(0, 10 ** 6), "log": rng.random() < .3}


def costs(case, w):
    """custom integer costs (positive for visible/log moves, zero or more for silent and synchronous moves)"""
    import random
    r = random.Random("%d-%s" % (case["seed"], ",".join(w)))
    lc = [r.randint(1, 9) for _ in w]
    mc = [r.randint(0, 3) if t["lab"] == "" else r.randint(1, 9) for t in case["net"]["t"]]
    sc = [0 if t["lab"] == "" else r.choice([0, 0, 1, 2]) for t in case["net"]["t"]]
    return lc, mc, sc


def run(case):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as al
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    no = {t.name: i + 1 for i, t in enumerate(ts)}
    evs = []
    for v in VARIANTS:
        var = getattr(al.Variants, v)
        for w in case["ws"]:
            tr = gens.to_eventlog(gens.word_log([w]))[0]
            par = dict(gens.kp(tr), ret_tuple_as_trans_desc=True)
            if case["custom"]:
                lc, mc, sc = costs(case, w)
                if v == "VERSION_DIJKSTRA_LESS_MEMORY":
                    sc = [0] * len(sc)
                par["trace_cost_function"] = lc
                par["model_cost_function"] = {t: mc[i] for i, t in enumerate(ts)}
                par["sync_cost_function"] = {t: sc[i] for i, t in enumerate(ts) if t.label is not None}
                par["enable_best_worst_cost"] = False
            else:
                lc = [10000] * len(w)
                mc = [1 if t["lab"] == "" else 10000 for t in net["t"]]
                sc = [0] * len(ts)
            r, exc = core.attempt(al.apply_trace, tr, pn, im, fm, variant=var, parameters=par)
            if exc:
                evs.append({"op": "exc", "exc": exc, "variant": v})
                continue
            ev = {"op": "align", "variant": v, "net": net, "w": w, "lc": lc, "mc": mc, "sc": sc, "custom": case["custom"]}
            if r is None:
                ev.update({"none": True, "mv": [], "cost": 0})
            else:
                mv = []
                for (n1, n2), (l1, l2) in r["alignment"]:
                    mv.append([0 if l1 == ">>" else 1, "" if l1 in (">>", None) else l1, 0 if n2 == ">>" else no[n2],
                               "" if l2 in (">>", None) else l2])
                ev.update({"none": False, "mv": mv, "cost": int(round(r["cost"]))})
            evs.append(ev)
    extra(case, al, pn, im, fm, ts, no, evs)
    return evs


def moves(al, no):
    return [[0 if l1 == ">>" else 1, "" if l1 in (">>", None) else l1, 0 if n2 == ">>" else no[n2],
             "" if l2 in (">>", None) else l2] for (n1, n2), (l1, l2) in al]


def extra(case, al, pn, im, fm, ts, no, evs):
    """the discounted search, and the searches that enumerate several optimal alignments"""
    from itertools import islice
    from pm4py.algo.conformance.alignments.petri_net.variants import generator_dijkstra_less_memory as glm, generator_dijkstra_no_heuristics as gnh
    net = case["net"]
    small = len(net["t"]) <= 8
    for w in case["ws"]:
        tr = gens.to_eventlog(gens.word_log([w]))[0]
        std = {"net": net, "w": w, "lc": [10000] * len(w), "mc": [1 if t["lab"] == "" else 10000 for t in net["t"]], "sc": [0] * len(ts), "custom": False}
        e = 2 + case["seed"] % 2
        r, exc = core.attempt(al.apply_trace, tr, pn, im, fm, variant=al.Variants.VERSION_DISCOUNTED_A_STAR,
                              parameters=dict(gens.kp(tr), ret_tuple_as_trans_desc=True, exponent=e))
        if exc:
            evs.append({"op": "exc", "exc": exc, "variant": "discounted"})
        else:
            ev = dict(std, op="disc", variant="discounted", none=r is None, mv=[], expo=e, cost=0)
            if r is not None:
                ev["mv"] = moves(r["alignment"], no)
                k = len(ev["mv"])
                c = r["cost"] * e ** k
                ev["cost"] = int(round(c)) if k <= 16 and abs(c - round(c)) < 1e-3 else -1
                if k > 16:
                    continue
            evs.append(ev)
        for v, gm in (("glm", glm), ("gnh", gnh)):
            # (the number of optimal alignments can be exponential; the first one of them searches with unit costs only)
            if not small or len(w) > 5 or (v == "glm" and case["custom"]):
                continue
            par = {**gens.kp(tr), "ret_tuple_as_trans_desc": True, "enable_best_worst_cost": False}
            if case["custom"]:
                lc, mc, sc = costs(case, w)
                mc = [max(c, 1) for c in mc]
                std = dict(std, lc=lc, mc=mc, sc=sc, custom=True)
                par["trace_cost_function"] = lc
                par["model_cost_function"] = {t: mc[i] for i, t in enumerate(ts)}
                par["sync_cost_function"] = {t: sc[i] for i, t in enumerate(ts) if t.label is not None}
            r, exc = core.attempt(lambda: list(islice(gm.apply(tr, pn, im, fm, parameters=par), 6)))
            if exc:
                evs.append({"op": "exc", "exc": exc, "variant": v})
                continue
            evs.append(dict(std, op="many", variant=v, none=False, res=[{"mv": moves(a["alignment"], no), "cost": int(round(a["cost"]))} for a in r]))


def nontrivial(case, evs):
    return any(e.get("cost", 0) >= 1 for e in evs)


def signature(case, ev, clause):
    if ev.get("variant") == TWEAKED:
        return "tweaked"
    return core.sha(case)
