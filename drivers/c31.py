"""C31: precision (token-based and alignment-based escaping edges)."""
from vf import core, gens
from drivers import c05

MODULE = "TrC31"
OWN_NAMES = 0.2
RULE = "bounded accepting nets (block-structured, perturbed, random weighted) x logs of runs, mutated runs and random words in both representations: alignment-based precision on easy-sound nets, token-based precision on nets without silent transitions and with distinct labels, the eventually enabled transitions of reachable markings; non-trivial: precision strictly between 0 and 1"
CASE_TIMEOUT = 60


def cases(rng, tier):
    n = 1000 if tier == "quick" else 8000
    while n:
        net, t = c05.rand_net(rng, maxleaves=rng.choice([3, 6]), cap=60)
        if net is None:
            continue
        R = gens.reach(net, 60)
        if R is None:
            continue
        if rng.random() < .25:
            ms = [list(m) for m in rng.sample(sorted(R), min(len(R), 4))]
            n -= 1
            yield {"k": "ev", "net": net, "ms": ms}
            continue
        plain = all(x["lab"] for x in net["t"]) and len({x["lab"] for x in net["t"]}) == len(net["t"])
        v = rng.choice(["token", "align"]) if plain else "align"
        if v == "align" and not gens.final_reachable(net, 60):
            continue
        w = [x or ["a"] for x in c05.rand_words(rng, net, t, rng.randint(1, 5), 6)]
        w += [list(rng.choice(w)) for _ in range(rng.randint(0, 3))]
        if rng.random() < .3:      # a label with a comma
            ren = lambda a: "a, b" if a == "a" else a
            net = dict(net, t=[dict(x, lab=ren(x["lab"])) for x in net["t"]])
            w = [[ren(a) for a in x] for x in w]
        n -= 1
        yield {"k": "prec", "v": v, "net": net, "w": w, "order": gens.interleaving(rng, gens.word_log(w))}


def run(case):
    import pm4py
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    if case["k"] == "ev":
        from pm4py.objects.petri_net.utils.align_utils import get_visible_transitions_eventually_enabled_by_marking as f
        from pm4py.objects.petri_net.obj import Marking
        no = {id(t): i + 1 for i, t in enumerate(ts)}
        return {"op": "ev", "net": net, "ms": case["ms"], "out": [sorted(no[id(t)] for t in f(pn, Marking({ps[i]: k for i, k in enumerate(m) if k}))) for m in case["ms"]]}
    cs = gens.word_log(case["w"])
    f = pm4py.precision_token_based_replay if case["v"] == "token" else pm4py.precision_alignments
    from pm4py.algo.evaluation.precision import algorithm as prec
    l, d = gens.to_eventlog(cs), gens.to_df(cs, order=case["order"])
    out = [f(l, pn, im, fm, **gens.kw(l)), f(d, pn, im, fm, **gens.kw(d))]
    if case["v"] == "align":
        out.append(prec.apply(gens.to_eventlog(cs), pn, im, fm, parameters=gens.kp(l)))
    return {"op": "prec", "net": net, "w": case["w"], "token": case["v"] == "token", "out": [gens.frac(x) for x in out]}


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    return any(e["out"]) if e["op"] == "ev" else any(0 < x[0] < x[1] for x in e["out"])
