"""C01: random walks of nets; every call of the firing-rule API is a trace event."""
import random, copy
from vf import gens

MODULE = "TrC01"
RULE = "random net (weights, reset, inhibitor arcs) and a random walk of enabled, disabled and weak firings; non-trivial: at least one firing succeeded"
MC = [dict(module="MCNets")]


def cases(rng, tier):
    n = 1200 if tier == "quick" else 8000
    for i in range(n):
        kind = rng.choice(["classic", "classic", "xreset", "generic"])
        np_ = rng.randint(1, 6)
        net = gens.rnet(rng, np_, rng.randint(1, 6), ["a", "b", "c"], maxw=rng.choice([1, 1, 2, 3]), tokens=rng.randint(1, 6))
        for t in net["t"]:
            t["inh"] = [0] * np_
            t["rst"] = [0] * np_
            if kind == "xreset":
                for p in range(np_):
                    if t["pre"][p] == 0:
                        x = rng.random()
                        if x < 0.2:
                            t["inh"][p] = 1
                        elif x < 0.4:
                            t["rst"][p] = 1
        net["im"] = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(np_)]
        yield {"kind": kind, "net": net, "walk": [[rng.choice(["exec", "exec", "exec", "weak", "exec_en", "exec_en", "exec_en"]), rng.randrange(len(net["t"])), rng.random()] for _ in range(12)]}


def run(case):
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    import pm4py
    from pm4py.objects.petri_net import semantics as classic
    from pm4py.objects.petri_net.inhibitor_reset import semantics as ir
    net, kind = case["net"], case["kind"]
    pn, im, fm, ps, ts = gens.net_to_pm(net, kind)
    sem = ir.InhibitorResetSemantics() if kind == "xreset" else classic.ClassicSemantics()
    mod = ir if kind == "xreset" else classic
    G = classic.PetriNetSemantics
    foreign = PetriNet.Transition("foreign", "f")
    evs = [{"op": "net", "net": net, "m": gens.mvec(im, ps), "kind": kind}]
    m = im
    for what, k, x in case["walk"]:
        en = [i for i, t in enumerate(ts) if sem.is_enabled(t, pn, m)]
        if what == "exec_en":
            cand = [i for i in en]
            if cand:
                k = cand[int(x * len(cand))]
            what = "exec"
        t = ts[k]
        if kind == "generic":
            en = [i for i, u in enumerate(ts) if G.is_enabled(pn, u, m)]
            es = sorted(ts.index(u) for u in pm4py.get_enabled_transitions(pn, m))
        else:
            es = sorted(ts.index(u) for u in sem.enabled_transitions(pn, m))
        before = gens.mvec(m, ps)
        keys = len(m)
        # the module-level functions and the class must agree
        en2 = [i for i, u in enumerate(ts) if mod.is_enabled(u, pn, m)]
        es2 = sorted(ts.index(u) for u in mod.enabled_transitions(pn, m))
        ev = {"op": "step", "what": what, "t": k + 1, "en": [i + 1 for i in en], "es": [i + 1 for i in es], "en2": [i + 1 for i in en2], "es2": [i + 1 for i in es2],
              "foreign": bool(sem.is_enabled(foreign, pn, m)) or bool(mod.is_enabled(foreign, pn, m)) or bool(G.is_enabled(pn, foreign, m)) or sem.execute(foreign, pn, m) is not None, "before": before}
        if kind == "generic" and what == "exec":
            # unchecked firing: only meaningful when enabled; otherwise tokens may become negative
            r = G.fire(pn, t, m)
            ev["what"] = "fire"
            ev["none"] = False
            zeros = False
            r2 = r
            r = Marking({p: c for p, c in r.items() if c})
        elif what == "exec":
            r = sem.execute(t, pn, m)
            r2 = mod.execute(t, pn, m)
            ev["none"] = r is None
        else:
            r = sem.weak_execute(t, pn, m)
            r2 = mod.weak_execute(t, m)
            ev["none"] = r is None
        ev["res"] = gens.mvec(r, ps) if r is not None else []
        ev["res2"] = gens.mvec(r2, ps) if r2 is not None else []
        ev["zeros"] = bool(r is not None and ev["what"] == "exec" and any(v == 0 for v in r.values()))
        ev["extra"] = bool(r is not None and any(p not in ps for p in r))
        ev["after"] = gens.mvec(m, ps)
        ev["same_obj"] = r is m or len(m) != keys
        # marking algebra on the two markings
        if r is not None and min(ev["res"] + [0]) >= 0:
            # markings as they are: without zero entries
            a = Marking({p: c for p, c in m.items() if c})
            b = Marking({p: c for p, c in r.items() if c})
            c = copy.deepcopy(pn)
            d = copy.deepcopy((pn, a))[1] if kind != "xreset" else None
            ev["alg"] = {"sub": gens.mvec((a + b) - a, ps) if a + b != a else gens.mvec(b, ps), "subz": any(v == 0 for v in ((a + b) - a).values()), "ge": bool(b <= a),
                         "copy_ok": sorted(p.name for p in c.places) == sorted(p.name for p in pn.places) and sorted((t.name, str(t.label)) for t in c.transitions) == sorted((t.name, str(t.label)) for t in pn.transitions) and not set(c.places) & set(pn.places) and (kind == "xreset" or sorted((x.source.name, x.target.name, x.weight) for x in c.arcs) == sorted((x.source.name, x.target.name, x.weight) for x in pn.arcs)),
                         "mcopy_ok": d is None or sorted((p.name, k) for p, k in d.items()) == sorted((p.name, k) for p, k in a.items()),
                         "a": gens.mvec(a, ps), "b": gens.mvec(b, ps), "eq": bool(a == b), "le": bool(a <= b), "add": gens.mvec(a + b, ps),
                         "hash_ok": (hash(Marking(dict(reversed(list(b.items()))))) == hash(b)) and Marking(dict(reversed(list(b.items())))) == b}
        if r is not None and min(ev["res"] + [0]) >= 0:
            m = Marking({p: c for p, c in r.items() if c}) if ev["what"] != "exec" else r
            ev["adv"] = True
        else:
            ev["adv"] = False
        evs.append(ev)
    return evs


def nontrivial(case, evs):
    return any(e.get("adv") for e in evs)
