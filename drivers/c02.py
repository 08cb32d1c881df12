"""C02: reachability graphs of bounded nets."""
import re
from vf import gens

MODULE = "TrC02"
RULE = "random bounded nets (block structured, perturbed, fully random with weights); non-trivial: at least three reachable markings"
LABELS = ["a", "b", "c", "d"]


def rand_bounded(rng):
    x = rng.random()
    if x < 0.35:
        net = gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(2, 6), dup=rng.random() < .3)))
        if gens.reach(net, 120) is None:
            return None
        return net
    if x < 0.6:
        net = gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(2, 5))), 0.95)
        return gens.perturb(rng, net, LABELS)
    return gens.rnet_bounded(rng, rng.randint(2, 5), rng.randint(2, 6), LABELS, maxw=rng.choice([1, 1, 2, 3]), tokens=rng.randint(1, 5), cap=80)


def cases(rng, tier):
    n = 700 if tier == "quick" else 5000
    for i in range(n):
        net = rand_bounded(rng)
        if net:
            yield {"net": net, "how": rng.choice(["flow", "simplified", "names", "marks"])}


def run(case):
    import pm4py
    from pm4py.objects.petri_net.utils import reachability_graph
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    before = gens.mvec(im, ps)
    if case["how"] == "marks":
        inc, out, ee = reachability_graph.marking_flow_petri(pn, im, return_eventually_enabled=True)
        return {"op": "flow", "net": net, "inc": [[gens.mvec(m, ps), sorted(ts.index(t) + 1 for t in x)] for m, x in inc.items()],
                "out": [[gens.mvec(m, ps), ts.index(t) + 1, gens.mvec(n, ps)] for m, x in out.items() for t, n in x.items()], "outm": [gens.mvec(m, ps) for m in out],
                "ee": [[gens.mvec(m, ps), sorted(ts.index(t) + 1 for t in x)] for m, x in ee.items()], "imsame": before == gens.mvec(im, ps)}
    if case["how"] == "simplified":
        g = pm4py.convert_to_reachability_graph(pn, im, fm)
    else:
        g = reachability_graph.construct_reachability_graph(pn, im, use_trans_name=case["how"] == "names")
    idx = {gens.pname(i): i for i in range(len(ps))}

    def vec(name):
        v = [0] * len(ps)
        for a, k in re.findall(r"([a-z]+)(\d+)", name):
            if a not in idx:
                return [-1] * len(ps)
            v[idx[a]] = int(k)
        return v

    def tno(name):
        return int(re.search(r"t(\d\d)", str(name)).group(1)) + 1

    states = [vec(s.name) for s in g.states]
    edges = [[vec(t.from_state.name), tno(t.name), vec(t.to_state.name)] for t in g.transitions]
    inc = sum(len(s.incoming) for s in g.states)
    out = sum(len(s.outgoing) for s in g.states)
    return {"op": "reach", "net": net, "states": states, "edges": edges, "inc": inc, "out": out, "imsame": before == gens.mvec(im, ps)}


def nontrivial(case, evs):
    return len(evs[0].get("states", evs[0].get("outm", []))) >= 3
