"""C39: data Petri nets, stochastic Petri nets, nets with stochastic arc weights."""
import random
from vf import core, gens

MODULE = "TrC39"
RULE = "random nets with guards over variables and walks with event data; random stochastic nets and nets with stochastic arc weights, all probabilities along a walk; non-trivial: a step was made"
OPS = ["<", "<=", ">", ">=", "==", "!="]


def guard(rng, n, declared):
    x = rng.random()
    if n <= 1 or x < .3:
        if rng.random() < .1:
            return ["true"]
        if rng.random() < .65:
            v = rng.choice(["n", "k"])
            return ["num", v, rng.choice(OPS), rng.randint(0, 6), v in declared]
        return ["str", "s", rng.choice(["==", "!="]), rng.choice(["u", "v"]), "s" in declared]
    return [rng.choice(["and", "or"]), guard(rng, n - 1, declared), guard(rng, n - 1, declared)]


def text(g):
    if g[0] == "true":
        return "true"
    if g[0] == "num":
        return "%s %s %s" % (g[1], g[2], g[3] // 2 if g[3] % 2 == 0 else "%.1f" % (g[3] / 2))
    if g[0] == "str":
        return "%s %s '%s'" % (g[1], g[2], g[3])
    return "(%s %s %s)" % (text(g[1]), {"and": "&&", "or": "||"}[g[0]], text(g[2]))


def cases(rng, tier):
    n = 900 if tier == "quick" else 8000
    for i in range(n):
        k = rng.choice(["data", "data", "stoch", "saw"])
        np_ = rng.randint(1, 4)
        nt = rng.randint(1, 4 if k != "saw" else 3)
        net = gens.rnet(rng, np_, nt, ["a", "b", "c"], maxw=rng.choice([1, 1, 2]), tokens=4)
        net["im"] = [rng.choice([0, 1, 1, 2, 3]) for _ in range(np_)]
        c = {"k": k, "net": net, "seed": rng.randrange(10 ** 6)}
        if k == "data":
            g, u, v = [], [], []
            for _ in range(nt):
                dec = [x for x in ("n", "k", "s") if rng.random() < .85]
                g.append(guard(rng, rng.randint(1, 3), dec) if rng.random() < .75 else [])
                u.append(bool(g[-1]) and rng.random() < .06)
                v.append(dec)
            net["guard"], net["unsafe"], c["vars"] = g, u, v
            c["walk"] = [[rng.randrange(nt), rng.random(), rng.random() < .15, {a: b for a, b in (("n", rng.randint(0, 3)), ("k", rng.randint(0, 3)), ("s", rng.choice(["u", "v"]))) if rng.random() < .35}, rng.random() < .3] for _ in range(8)]
        else:
            net["w"] = [rng.choice([1, 1, 2, 3]) for _ in range(nt)]
            c["walk"] = [rng.random() for _ in range(3)]
        if k == "saw":
            for t in net["t"]:
                for side in ("pre", "post"):
                    arcs = [j for j, x in enumerate(t[side]) if x]
                    t[side] = [[[y, rng.choice([0, 1, 1, 2])] for y in rng.sample(range(0, 4), rng.choice([1, 2, 2, 3]))] if j in arcs[:2] else [] for j in range(np_)]
                    for x in t[side]:
                        if x and not any(y[1] for y in x):
                            x[0][1] = 1
        yield c


def run(c):
    return {"data": data, "stoch": stoch, "saw": saw}[c["k"]](c)


def data(c):
    from pm4py.objects.petri_net.data_petri_nets import semantics as ds
    from pm4py.objects.petri_net.data_petri_nets.data_marking import DataMarking
    net = c["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    for t, g, u, v in zip(ts, net["guard"], net["unsafe"], c["vars"]):
        if g:
            t.properties["guard"] = text(g) + (" && 'x'.upper() == 'X'" if u else "")
            t.properties["readVariable"] = list(v)
            t.properties["writeVariable"] = []
    S = ds.DataPetriNetSemantics()
    m = DataMarking()
    for p, x in im.items():
        m[p] = x
    evs = [{"op": "net", "net": net}]
    if c["seed"] % 4 == 0:
        from pm4py.objects.petri_net.importer.variants import pnml as imp
        from pm4py.objects.petri_net.exporter.variants import pnml as exp
        r, x = core.attempt(lambda: imp.import_net_from_string(exp.export_petri_as_string(pn, im, fm)))
        if x:
            return {"op": "exc", "exc": x}
        q = {t.name: t for t in r[0].transitions}
        z = [q[t.name].properties for t in ts]
        evs.append({"op": "pnml", "guard": [t.properties.get("guard", "") for t in ts], "guard2": [y.get("guard", "") for y in z], "vars": [list(t.properties.get("readVariable", [])) for t in ts],
                    "vars2": [list(y.get("readVariable", [])) for y in z], "same": sorted(p.name for p in r[0].places) == sorted(p.name for p in ps) and len(r[0].arcs) == len(pn.arcs)})
    for k, x, weak, e, any_ in c["walk"]:
        en = [i for i, t in enumerate(ts) if S.is_enabled(t, pn, m, e=e)]
        if not weak and not any_ and en:
            k = en[int(x * len(en))]
        ev = {"op": "data", "e": e or [], "t": k + 1, "weak": weak, "en": [i + 1 for i in en], "en2": [i + 1 for i, t in enumerate(ts) if ds.is_enabled(t, pn, m, e)],
              "es": sorted(ts.index(t) + 1 for t in S.enabled_transitions(pn, m, e=e))}
        r = S.weak_execute(ts[k], pn, m, e=e) if weak else S.execute(ts[k], pn, m, e=e)
        ev["none"] = r is None
        ev["res"] = gens.mvec(r, ps) if r is not None else []
        ev["data"] = (dict(r.data_dict) or []) if r is not None else []
        ev["after"], ev["dafter"] = gens.mvec(m, ps), dict(m.data_dict) or []
        ev["adv"] = r is not None
        if r is not None:
            m = r
        evs.append(ev)
    return evs


def stoch(c):
    from pm4py.objects.petri_net.stochastic.obj import StochasticPetriNet as N
    from pm4py.objects.petri_net.stochastic.semantics import StochasticPetriNetSemantics as S
    from pm4py.objects.petri_net.obj import Marking
    net = c["net"]
    pn, ps, ts = build(N, net, lambda x: x)
    m = Marking({ps[i]: x for i, x in enumerate(net["im"]) if x})
    evs = [{"op": "net", "net": net}]
    for x in c["walk"]:
        en = [i for i, t in enumerate(ts) if S.is_enabled(pn, t, m)]
        ev = {"op": "stoch", "p": [gens.frac(S.probability_of_transition(pn, t, m)) for t in ts], "foreign": gens.frac(S.probability_of_transition(pn, N.Transition("f", "f"), m))}
        ev["s"] = [ts.index(S.sample_enabled_transition(pn, m, seed=c["seed"] + i)) + 1 for i in range(100)] if en else []
        ev["s2"] = [ts.index(S.sample_enabled_transition(pn, m, seed=c["seed"] + i)) + 1 for i in range(100)] if en else []
        if en:
            m = S.fire(pn, ts[en[int(x * len(en))]], m)
        ev["next"] = [int(m[p]) for p in ps]
        evs.append(ev)
    return evs


def build(N, net, w):
    pn = N("n")
    ps = [N.Place(gens.pname(i)) for i in range(len(net["im"]))]
    ts = [N.Transition("t%d" % i, t["lab"] or None, weight=float(net["w"][i])) for i, t in enumerate(net["t"])]
    pn.places.update(ps)
    pn.transitions.update(ts)
    for t, x in zip(ts, net["t"]):
        for i, p in enumerate(ps):
            for side, a, b in (("pre", p, t), ("post", t, p)):
                if x[side][i]:
                    arc = N.Arc(a, b, w(x[side][i]))
                    pn.arcs.add(arc)
                    a.out_arcs.add(arc)
                    b.in_arcs.add(arc)
    return pn, ps, ts


def saw(c):
    from pm4py.objects.petri_net.saw_net.obj import StochasticArcWeightNet as N
    from pm4py.objects.petri_net.saw_net import semantics as sem
    from pm4py.objects.petri_net.obj import Marking
    G, L = sem.GlobalStochasticArcWeightNetSemantics, sem.LocalStochasticArcWeightNetSemantics
    net = c["net"]
    pn, ps, ts = build(N, net, lambda x: {k: float(v) for k, v in x})
    m = Marking({ps[i]: x for i, x in enumerate(net["im"]) if x})
    rng = random.Random(c["seed"])

    def vec(b):
        r = [[-1] * len(ps), [-1] * len(ps)]
        for a, k in b:
            if isinstance(a.source, N.Place):
                r[0][ps.index(a.source)] = k
            else:
                r[1][ps.index(a.target)] = k
        return r
    evs = [{"op": "net", "net": net}]
    for x in c["walk"]:
        en = [i for i, t in enumerate(ts) if G.is_enabled(pn, t, m)]
        k = en[int(x * len(en))] if en and rng.random() < .8 else rng.randrange(len(ts))
        t = ts[k]
        allb = [list(b) for b in G.all_legal_bindings(pn, t)]
        ev = {"op": "saw", "t": k + 1, "en": [i + 1 for i in en], "all": [vec(b) for b in allb], "some": [vec(b) for b in G.all_enabled_bindings(pn, t, m)], "bs": []}
        nxt = None
        for b in rng.sample(allb, min(4, len(allb))):
            ok = bool(G.is_enabled_binding(pn, t, b, m))
            y = {"b": vec(b), "ok": ok, "prio": gens.frac(G.amortized_priority(b)), "g": gens.frac(G.probability_of_binding(pn, t, b, m)), "l": gens.frac(L.probability_of_binding(pn, t, b, m)) if ok else [0, 1], "res": []}
            if ok:
                r = G.fire(pn, b, m)
                y["res"] = [int(r[p]) for p in ps]
                nxt = Marking({p: v for p, v in r.items() if v})
            ev["bs"].append(y)
        ev["pt"] = [gens.frac(G.probability_of_transition(pn, u, m)) for u in ts]
        ev["pl"] = [gens.frac(L.probability_of_transition(pn, u, m)) for u in ts]
        smp = [G.sample_enabled_transition(pn, m, seed=c["seed"] + i) for i in range(12)]
        ev["smp"] = [[ts.index(u[0]) + 1, vec(u[1])] for u in smp if u is not None]
        ev["after"] = [int(m[p]) for p in ps]
        if nxt is not None:
            m = nxt
        ev["next"] = [int(m[p]) for p in ps]
        evs.append(ev)
    return evs


def nontrivial(c, evs):
    return any(e.get("adv") or e["op"] == "stoch" and e["s"] or e["op"] == "saw" and e["smp"] for e in evs)


def signature(case, ev, clause):
    return case["k"] + "/" + core.sha(case)
