"""C42: structural metrics and helpers of Petri nets; bounds by the (extended) marking equation."""
from vf import core, gens
from drivers.c02 import LABELS
from drivers import c05, c07

MODULE = "TrC42"
RULE = "accepting nets (block structured, perturbed, fully random with weights, state machines, duplicate labels, silent transitions) with logs and words; non-trivial: at least three transitions and three places"
KINDS = ["simp", "cyc", "decomp", "decomp", "mark", "gen", "usage", "meq", "meq", "sync", "sync"]


def state_machine(rng):
    n, m = rng.randint(2, 6), rng.randint(1, 8)
    t = []
    for _ in range(m):
        a, b = rng.randrange(n), rng.randrange(n)
        t.append({"lab": rng.choice(LABELS + [""]), "pre": [int(i == a) for i in range(n)], "post": [int(i == b) for i in range(n)]})
    im = [0] * n
    im[rng.randrange(n)] = 1
    r = gens.reach({"t": t, "im": im, "fm": im}, 50)
    fm = list(rng.choice(sorted(r))) if rng.random() < .85 else [0] * n
    if not sum(fm):
        fm[rng.randrange(n)] = 1
    return {"t": t, "im": im, "fm": fm}


def some_net(rng):
    x = rng.random()
    if x < .35:
        return c05.rand_net(rng)[0]
    if x < .55:
        return state_machine(rng)
    return gens.rnet_bounded(rng, rng.randint(2, 5), rng.randint(2, 6), LABELS, maxw=rng.choice([1, 1, 2]), tokens=rng.randint(1, 3), cap=50)


def cases(rng, tier):
    n = 880 if tier == "quick" else 8000
    j = 0
    while j < n:
        k = KINDS[j % len(KINDS)]
        c = {"k": k}
        if k in ("gen", "usage"):
            net, t = c05.rand_net(rng)
            if net is None or gens.reach(net, 60) is None or c07.silent_pump(net) or not sum(net["im"]) or not sum(net["fm"]):
                continue
            c["ws"] = [[w for w in c05.rand_words(rng, net, t, rng.randint(1, 4)) if w] or [["a"]] for _ in range(2)]
            for ws in c["ws"]:
                ws.extend(list(rng.choice(ws)) for _ in range(rng.randint(0, 4)))
        elif k == "sync":
            net, t = c05.rand_net(rng)
            if net is None or gens.reach(net, 40) is None or len(net["t"]) > 9:
                continue
            w = rng.choice(c05.rand_words(rng, net, t, 2))
            if len(w) > 6:
                continue
            c["w"] = w
            c["split"] = sorted(rng.sample(range(1, len(w)), rng.randint(1, min(3, len(w) - 1)))) if len(w) > 1 and rng.random() < .4 else None
        elif k == "meq":
            net = state_machine(rng) if rng.random() < .4 else some_net(rng)
            if net is None or len(net["t"]) > 7 or gens.reach(net, 60) is None:
                continue
            c["costs"] = [rng.randint(0, 3) for _ in net["t"]] if rng.random() < .5 else None
        else:
            net = some_net(rng)
            if net is None:
                continue
        c["net"] = net
        if k == "simp":
            c["kk"] = rng.choice([0, 1, 2, 2, 3])
        if k == "cyc":
            c["noim"] = rng.random() < .4
            if c["noim"]:
                net["im"] = [int(not any(u["post"][p] for u in net["t"])) for p in range(len(net["im"]))]
            if gens.reach(net, 60) is None:
                continue
        if k == "decomp":
            c["names"] = rng.random() < .4
        if k == "mark":
            c["how"] = rng.choice(["place", "name", "dplace", "dname"])
            c["v"] = [rng.choice([0, 0, 1, 2]) for _ in net["im"]]
            if c["how"] in ("place", "name") or not any(c["v"]):
                c["v"] = [0] * len(net["im"])
                c["v"][rng.randrange(len(net["im"]))] = 1
        j += 1
        yield c


def run(c):
    import pm4py
    net = c["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    if c.get("names") and len({t["lab"] for t in net["t"]}) == len(net["t"]):
        for t in ts:
            t._Transition__name = t.label or "tau"
    before = gens.net_from_pm(pn, im, fm, ps)
    pi = {p: i + 1 for i, p in enumerate(ps)}
    ti = {t: i + 1 for i, t in enumerate(ts)}
    k = c["k"]
    r = dict(op=k, net=net)
    if k == "simp":
        from pm4py.algo.evaluation.simplicity import algorithm as simplicity
        from pm4py.algo.evaluation.simplicity.variants import arc_degree
        v = simplicity.apply(pn) if c["kk"] == 2 else arc_degree.apply(pn, parameters={arc_degree.Parameters.K: c["kk"]})
        r.update(k=c["kk"], v=gens.frac(v), v2=gens.frac(pm4py.simplicity_petri_net(pn, im, fm)), card=int(pm4py.simplicity_petri_net(pn, im, fm, variant="extended_cardoso")))
    elif k == "cyc":
        from pm4py.algo.evaluation.simplicity.variants import extended_cyclomatic
        r["v"] = int(extended_cyclomatic.apply(pn) if c["noim"] else pm4py.simplicity_petri_net(pn, im, fm, variant="extended_cyclomatic"))
    elif k == "decomp":
        byname = {p.name: i + 1 for i, p in enumerate(ps)}
        tname = {t.name: i + 1 for i, t in enumerate(ts)}

        def comp(x):
            n, i0, f0 = x
            return dict(p=sorted(byname[p.name] for p in n.places), t=sorted(tname[t.name] for t in n.transitions), lab=sorted([tname[t.name], t.label or ""] for t in n.transitions),
                        pre=sorted([byname[a.source.name], tname[a.target.name], a.weight] for a in n.arcs if a.source in n.places),
                        post=sorted([byname[a.target.name], tname[a.source.name], a.weight] for a in n.arcs if a.target in n.places),
                        im=sorted([byname[p.name], w] for p, w in i0.items()), fm=sorted([byname[p.name], w] for p, w in f0.items()), ok=gens.net_consistent(n))
        from pm4py.objects.petri_net.utils import decomposition
        d = pm4py.maximal_decomposition(pn, im, fm)
        r["comps"] = [comp(x) for x in d]
        r["merged"] = comp(decomposition.merge_sublist_nets(list(d)))
    elif k == "mark":
        nz = [i for i, x in enumerate(c["v"]) if x]
        a = {"place": lambda: ps[nz[0]], "name": lambda: ps[nz[0]].name, "dplace": lambda: {ps[i]: c["v"][i] for i in nz}, "dname": lambda: {ps[i].name: c["v"][i] for i in nz}}[c["how"]]()
        m = pm4py.generate_marking(pn, a)
        r.update(v=c["v"], out=[m[p] if p in m else 0 for p in ps], places=all(p in pn.places for p in m), kind=type(m).__name__)
    elif k in ("gen", "usage"):
        from pm4py.algo.conformance.tokenreplay import algorithm as tr
        logs = [gens.to_eventlog(gens.word_log(ws)) for ws in c["ws"]]
        occ = []
        place = []
        for log in logs:
            rep, pf, tf, ne = tr.apply(log, pn, im, fm, parameters={"enable_pltr_fitness": True})
            o = [0] * len(ts)
            for x in rep:
                for t in x["activated_transitions"]:
                    o[ti[t] - 1] += 1
            occ.append(o)
            place.append([pf[p]["c"] + pf[p]["r"] if p in pf else 0 for p in ps])
        if k == "gen":
            v = pm4py.generalization_tbr(logs[0], pn, im, fm)
            r.update(occ=occ[0], v=round(v * 10000 * len(ts)))
        else:
            from pm4py.algo.comparison.petrinet import element_usage_comparison as cmp
            s = cmp.compare_element_usage_two_logs(pn, im, fm, logs[0], logs[1])
            row = lambda d: [d["log1_occ"], d["log2_occ"], d["total_occ"], gens.frac(d["direction"])]
            r.update(occ=occ, pocc=place, t=[row(s[t]) for t in ts], p=[row(s[p]) for p in ps], lab=[s[t]["label"] for t in ts], exp=["%s(%d/%d/%d)" % (t.label + " " if t.label else "", a, b, a + b) for t, a, b in zip(ts, *occ)],
                     arcs=all(s[a] == s[a.source if a.target in pi else a.target] for a in pn.arcs), n=len(s), narcs=len(pn.arcs))
    elif k == "meq":
        h = pm4py.solve_marking_equation(pn, im, fm, {t: x for t, x in zip(ts, c["costs"])} if c["costs"] else None)
        r.update(costs=c["costs"] or [1] * len(ts), h=-1 if h is None else int(h))
    elif k == "sync":
        from pm4py.algo.analysis.marking_equation import algorithm as meq
        from pm4py.objects.petri_net.utils import align_utils
        tr_ = gens.to_eventlog(gens.word_log([c["w"]]))[0]
        sn, si, sf = pm4py.construct_synchronous_product_net(tr_, pn, im, fm)
        S = align_utils.SKIP
        tn = {t.name: i + 1 for i, t in enumerate(ts)}
        pname = {p.name: i + 1 for i, p in enumerate(ps)}

        def pl(p):
            a, b = p.name
            return [0, int(a[2:]) + 1] if b == S else [1, pname[b]]

        def tl(t):
            a, b = t.name
            return [0 if a == S else int(a.split("_")[-1]) + 1, 0 if b == S else tn[b]]

        def lb(x):
            return ">>" if x == S else (x or "")
        mk = lambda m: sorted(pl(p) + [w] for p, w in m.items())
        r.update(w=c["w"], sp=sorted(pl(p) for p in sn.places), st=[dict(id=tl(t), lab=[lb(t.label[0]), lb(t.label[1])], pre=sorted(pl(a.source) + [a.weight] for a in t.in_arcs), post=sorted(pl(a.target) + [a.weight] for a in t.out_arcs))
                                                                        for t in sn.transitions], im=mk(si), fm=mk(sf), ok=gens.net_consistent(sn))
        h = meq.get_h_value(meq.build(sn, si, sf))
        r["h"] = -1 if h is None else int(h)
        r["e"] = -2
        if len(c["w"]) > 1:
            e = pm4py.solve_extended_marking_equation(tr_, sn, si, sf, c["split"])
            r["e"] = -1 if e is None else int(e)
    r["same"] = gens.net_from_pm(pn, im, fm, ps) == before
    return r


def nontrivial(c, evs):
    return len(c["net"]["t"]) >= 3 and len(c["net"]["im"]) >= 3
