"""C12: play-out."""
from vf import core, gens
from drivers import c05

MODULE = "TrC12"
OWN_NAMES = 0.2
RULE = "bounded and sound nets (weights, duplicate labels, deadlocks), trees (all with at most 3 leaves, random ones with several redos, OR, interleaving) and DFGs x extensive / basic / stochastic / top-down / bottom-up play-out x bounds and seeds; non-trivial: at least two different traces"
LABELS = ["a", "b", "c", "d", "e", "f"]
CASE_TIMEOUT = 60


def livelock(net):
    """some reachable marking from which only silent transitions can fire for ever (only used to select inputs)"""
    r = gens.reach(net, 80)
    good = {m for m in r if m == tuple(net["fm"]) or any(t["lab"] and gens.enabled(t, m) for t in net["t"]) or not any(gens.enabled(t, m) for t in net["t"])}
    for _ in r:
        good |= {m for m in r if any(gens.enabled(t, m) and gens.fire(t, m) in good for t in net["t"])}
    return good != r


def cases(rng, tier):
    n = 700 if tier == "quick" else 7000
    for i, t in enumerate(gens.all_trees(3, 1, True)):
        yield {"k": "tree_basic", "tree": t, "seed": i}
        if '"or"' not in core.canon(t) and '"ilv"' not in core.canon(t):
            yield {"k": "tree_all", "tree": t, "max": 4, "min": i % 3, "seed": i}
    while n:
        k = rng.choice(["net_all", "net_all", "net_dead", "net_basic", "net_fm", "net_stoch", "runs", "tree_all", "tree_all", "tree_top", "tree_basic", "tree_basic", "tree_basic", "dfg", "dfg", "dfg", "dfg", "dfg_perf", "dfg_perf", "net_leq", "xruns", "xruns"])
        c = {"k": k, "seed": rng.randint(0, 10 ** 6)}
        if k in ("net_all", "net_dead", "net_fm", "runs"):
            net, t = c05.rand_net(rng, 5)
            if net is None or not gens.final_reachable(net, 80):
                continue
            if k in ("net_fm", "runs") and livelock(net):
                continue
            c.update(net=net, max=rng.randint(0, 5))
            if len(gens.words_upto(net, c["max"], 4000)) >= 4000:
                continue
        elif k in ("net_basic", "net_stoch"):
            net = gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(1, 6), dup=rng.random() < .4))
            if rng.random() < .6:
                net = gens.unfence(rng, net, .7)
            c["net"] = net
        elif k == "net_leq":
            net, t = c05.rand_net(rng, 5)
            if net is None or not gens.final_reachable(net, 80) or livelock(net):
                continue
            c.update(net=net, id0=rng.choice([0, 0, 7]))
        elif k == "xruns":
            np_ = rng.randint(1, 5)
            net = gens.rnet(rng, np_, rng.randint(1, 6), LABELS, silent=0, maxw=rng.choice([1, 1, 2]), tokens=rng.randint(1, 4))
            ext = rng.random() < .8
            for t in net["t"]:
                t["inh"] = [int(ext and not t["pre"][p] and rng.random() < .25) for p in range(np_)]
                t["rst"] = [int(ext and not t["pre"][p] and not t["inh"][p] and rng.random() < .25) for p in range(np_)]
            c.update(net=net, ext=ext, stoch=rng.random() < .3)
        elif k.startswith("tree"):
            ops = None
            if k != "tree_all" and rng.random() < .5:
                ops = gens.OPS + ["or", "ilv"]
            t = gens.rtree(rng, LABELS, rng.randint(1, 6 if k != "tree_all" else 5), ops=ops, tau=.2, dup=rng.random() < .4)
            c["tree"] = t
            c["max"], c["min"] = rng.randint(1, 5), rng.choice([0, 0, 1, 2, 3])
        else:
            A = LABELS[:rng.randint(1, 3)]
            df = [[a, b] for a in A for b in A if rng.random() < .4]
            c["d"] = {"df": df, "starts": sorted(rng.sample(A, rng.randint(1, min(2, len(A))))), "ends": sorted(rng.sample(A, rng.randint(1, min(2, len(A)))))}
            # every activity leads somewhere
            if any(a not in c["d"]["ends"] and all(x != a for x, _ in df) for a in A):
                continue
            ok = set(c["d"]["ends"])
            for _ in A:
                ok |= {a for a, b in df if b in ok}
            if any(a not in ok for a in A):
                continue
            c["freq"] = [rng.randint(1, 5) for _ in range(20)]
            c["perf"] = [rng.choice([0, 0, 1, 60, 5000]) for _ in range(20)]
            c["how"] = rng.randrange(4)
            c["occ"] = rng.choice([1, 2, 2])
        yield c
        n -= 1


def xruns(case):
    import pm4py
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net, "xreset" if case["ext"] else "classic")
    no = {t: i + 1 for i, t in enumerate(ts)}
    par = {"noTraces": 5, "no_traces": 5, "maxTraceLength": 7, "return_visited_elements": True}
    if case["stoch"]:
        from pm4py.objects.random_variables.exponential.random_variable import Exponential
        par["smap"] = {}
        for i, t in enumerate(ts):
            par["smap"][t] = Exponential()
            par["smap"][t].set_weight(1.0 + i % 3)
    r = pm4py.play_out(pn, im, fm, parameters=par)
    return {"op": "xruns", "net": net, "k": 7, "ms": [[gens.mvec(m, ps) for m in x[0::2]] for x in r], "ts": [[no[t] for t in x[1::2]] for x in r]}


def ids(log, first=0):
    """cases are numbered and every event is later than the one before"""
    t = [e["when" if gens.KEYED else "time:timestamp"] for tr in log for e in tr]
    return [tr.attributes["concept:name"] for tr in log] == [str(first + i) for i in range(len(log))] and all(a < b for a, b in zip(t, t[1:]))


def names(log):
    return [[e["act" if gens.KEYED else "concept:name"] for e in tr] for tr in log]


def run(case):
    import pm4py, random, numpy
    random.seed(case["seed"])
    numpy.random.seed(case["seed"])
    k = case["k"]
    K = gens.kp(None)
    if k == "xruns":
        return xruns(case)
    if k.startswith("net") or k == "runs":
        from pm4py.algo.simulation.playout.petri_net import algorithm as po
        net = case["net"]
        pn, im, fm, ps, ts = gens.net_to_pm(net)
        if k == "net_all":
            par = dict(K, maxTraceLength=case["max"])
            no = {t: i + 1 for i, t in enumerate(ts)}
            ws = names(po.apply(pn, im, fm, variant=po.Variants.EXTENSIVE, parameters=par))
            els = po.apply(pn, im, fm, variant=po.Variants.EXTENSIVE, parameters=dict(par, return_elements=True))
            return [{"op": "all", "m": "net", "net": net, "k": case["max"], "min": 0, "ws": ws},
                    {"op": "elements", "net": net, "ws": ws, "ms": [[gens.mvec(m, ps) for m in x[0::2]] for x in els], "ts": [[no[t] for t in x[1::2]] for x in els]}]
        if k == "net_dead":
            par = dict(K, maxTraceLength=case["max"])
            return {"op": "dead", "net": net, "k": case["max"], "ws": names(po.apply(pn, im, None, variant=po.Variants.EXTENSIVE, parameters=par))}
        if k == "runs":
            no = {t: i + 1 for i, t in enumerate(ts)}
            r = po.apply(pn, im, fm, variant=po.Variants.BASIC_PLAYOUT, parameters={"noTraces": 4, "maxTraceLength": 6, "return_visited_elements": True})
            return {"op": "runs", "net": net, "ms": [[gens.mvec(m, ps) for m in x[0::2]] for x in r], "ts": [[no[t] for t in x[1::2]] for x in r]}
        if k == "net_leq":
            log = po.apply(pn, im, fm, parameters={**K, "noTraces": 15, "maxTraceLength": 8, "add_only_if_fm_is_reached": True, "fm_leq_accepted": True, "initial_case_id": case["id0"]})
            return {"op": "leq", "net": net, "ws": names(log), "n": 15, "ids": ids(log, case["id0"])}
        same = lambda: gens.net_from_pm(pn, im, fm) == before
        before = gens.net_from_pm(pn, im, fm)
        if k == "net_basic":
            log = pm4py.play_out(pn, im, fm, parameters={**K, "noTraces": 25})
            return {"op": "some", "m": "net", "net": net, "ws": names(log), "n": 25, "atmost": False, "same": same() and ids(log)}
        if k == "net_fm":
            log = po.apply(pn, im, fm, variant=po.Variants.BASIC_PLAYOUT, parameters={**K, "noTraces": 15, "maxTraceLength": 8, "add_only_if_fm_is_reached": True})
            return {"op": "some", "m": "net", "net": net, "ws": names(log), "n": 15, "atmost": True, "same": same()}
        from pm4py.objects.random_variables.exponential.random_variable import Exponential
        smap = {}
        for t in ts:
            v = Exponential()
            v.set_weight(random.choice([1.0, 2.0, 5.0, 0.5]))
            smap[t] = v
        log = pm4py.play_out(pn, im, fm, parameters={"noTraces": 20, "no_traces": 20, "smap": smap, **K})
        return {"op": "some", "m": "net", "net": net, "ws": names(log), "n": 20, "atmost": False, "same": same() and ids(log)}
    if k.startswith("tree"):
        from pm4py.algo.simulation.playout.process_tree import algorithm as po
        t = case["tree"]
        p = gens.tree_to_pm(t)
        if k == "tree_all":
            par = {"min_trace_length": case["min"], "max_trace_length": case["max"], "max_loop_occ": case["max"] + 1}
            if case["seed"] % 3 == 0:
                ws = [list(w) for w in po.apply(p, variant=po.Variants.EXTENSIVE, parameters=dict(par, return_set_strings=True))]
            else:
                ws = names(po.apply(p, variant=po.Variants.EXTENSIVE, parameters=dict(par, **K)))
            return {"op": "all", "m": "tree", "tree": t, "k": case["max"], "min": case["min"], "ws": ws}
        if k == "tree_top":
            log = po.apply(p, parameters={**K, "num_traces": 25})
        else:
            gens.KEYED = 0      # (this playout always names the activities concept:name)
            log = po.apply(p, variant=po.Variants.BASIC_PLAYOUT, parameters={"no_traces": 25, "num_traces": 25, "noTraces": 25})
        return {"op": "some", "m": "tree", "tree": t, "ws": names(log), "n": 25, "atmost": False, "same": gens.tree_from_pm(p) == t}
    d = case["d"]
    f = case["freq"]
    dd = {tuple(p): f[i % len(f)] for i, p in enumerate(d["df"])}
    sa = {a: f[(i + 7) % len(f)] for i, a in enumerate(d["starts"])}
    ea = {a: f[(i + 11) % len(f)] for i, a in enumerate(d["ends"])}
    from pm4py.algo.simulation.playout.dfg import algorithm as po
    from pm4py.algo.simulation.playout.dfg.variants import classic
    if k == "dfg_perf":
        g = case["perf"]
        perf = {x: float(g[i % len(g)]) if case["how"] % 2 else {"mean": float(g[i % len(g)]), "max": 1e9} for i, x in enumerate(dd)}
        before = core.canon([sorted(map(str, dd.items())), sorted(map(str, perf.items())), sa, ea])
        rate = 3
        log = po.apply(dict(dd), dict(sa), dict(ea), variant=po.Variants.PERFORMANCE, parameters={"performance_dfg": perf, "num_traces": 12, "case_arrival_rate": rate, **K})
        sec = lambda e: round(e["when" if gens.KEYED else "time:timestamp"].timestamp() * 1000) - 10000000000
        return {"op": "perf", "d": d, "n": 12, "rate": rate * 1000, "zero": [list(x) for x in dd if g[list(dd).index(x) % len(g)] == 0],
                "ids": [tr.attributes["concept:name"] for tr in log], "ws": names(log), "t": [[min(2000000000, sec(e)) for e in tr] for tr in log],
                "same": before == core.canon([sorted(map(str, dd.items())), sorted(map(str, perf.items())), sa, ea])}
    par = {"max_no_occ_per_activitiy": case["occ"], "max_no_variants": 100000, "min_weighted_probability": 2.0, **K}
    op = "dfgall"
    if case["how"] == 3:
        op = "dfgcover"
        par[random.choice(["interrupt_simulation_when_dfg_complete", "add_trace_if_takes_new_els_to_dfg"])] = True
    lim, part = 0, False
    if op == "dfgall" and random.random() < .35:
        op, lim = "dfglimit", random.randint(1, 6)
        part = random.random() < .4
        par.update(max_no_variants=lim, return_only_if_complete=part)
        case = dict(case, seed=case["seed"] | 1)
        if part and po.apply(dd, sa, ea, parameters=par) is None:
            return {"op": "dfgnone", "d": d, "occ": case["occ"], "lim": lim}
    pr, D = None, {}
    for a in {x[0] for x in dd} | set(ea):
        D[a] = sum(v for x, v in dd.items() if x[0] == a) + ea.get(a, 0)
    S = sum(sa.values())
    if case["seed"] % 2:
        log = pm4py.play_out(dd, sa, ea, parameters=par) if case["how"] == 2 else po.apply(dd, sa, ea, parameters=par)
        ws = names(log)
        pr = [tr.attributes["probability"] for tr in log]
        if random.random() < .5:
            pr = [classic.get_trace_probability(tr, dd, sa, ea, parameters=dict(K)) for tr in log]
    else:
        v = po.apply(dd, sa, ea, parameters=dict(par, return_variants=True))
        ws = [list(x) for x in v]
        pr = [x / 100000 for x in v.values()]
    # each probability as a fraction over the product of the out-flows along the path
    den = [S for _ in ws]
    for i, w in enumerate(ws):
        for a in w:
            den[i] *= D[a]
    num = [round(p * q) for p, q in zip(pr, den)]
    ok = [q < 2 * 10 ** 9 and (case["seed"] % 2 == 1 or q < 20000) for q in den]
    return {"op": op, "lim": lim, "part": part, "d": d, "occ": case["occ"], "ws": ws, "ids": case["seed"] % 2 == 0 or ids(log),
            "arcs": [[*x, v] for x, v in dd.items()], "sa": list(map(list, sa.items())), "ea": list(map(list, ea.items())),
            "pr": [[i + 1, n, q] for i, (n, q, o) in enumerate(zip(num, den, ok)) if o],
            "sorted": all(x >= y - 1e-12 for x, y in zip(pr, pr[1:])),
            "exact": all(abs(p - n / q) < (1e-9 if case["seed"] % 2 else 2.1e-5) for p, n, q, o in zip(pr, num, den, ok) if o)}


def nontrivial(case, evs):
    return any(len(set(map(tuple, e.get("ws", [])))) > 1 for e in evs)
