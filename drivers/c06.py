"""C06: alignment-based fitness of traces and logs."""
from vf import core, gens
from drivers.c02 import LABELS
from drivers import c05

MODULE = "TrC06"
OWN_NAMES = 0.2
RULE = "nets with reachable final marking x logs with repeated, fitting, deviating and empty traces x log representation x alignment variant; non-trivial: fitting and deviating traces in one log"
VARIANTS = [None, "VERSION_STATE_EQUATION_A_STAR", "VERSION_DIJKSTRA_NO_HEURISTICS", "VERSION_DIJKSTRA_LESS_MEMORY"]


def cases(rng, tier):
    n = 450 if tier == "quick" else 4000
    # long traces with few deviations, many traces: rounding and integer effects
    for t, unit in ((["loop", [["act", "a"], ["act", "b"]]], ["a", "b"]), (["seq", [["act", "a"], ["loop", [["act", "b"], ["tau", 0]]]]], ["b", "b"]),
                    (["loop", [["tau", 0], ["act", "b"], ["seq", [["act", "a"], ["act", "c"]]]]], ["a", "c"])):
        for reps in (30, 104):
            ok = (["a"] if t[0] == "seq" else []) + unit * reps + (["a"] if unit == ["a", "b"] else [])
            bad = list(ok)
            bad.insert(rng.randint(0, len(bad)), "x")
            bad2 = [a for i, a in enumerate(bad) if i != 2 * (len(bad) // 3)]
            ws = [bad, ok, bad2, bad][:2 if reps > 40 else 4] + [unit[:1]] * rng.randint(0, 3)
            yield {"net": gens.net_of_tree(t), "ws": ws, "df": rng.random() < .5, "v": rng.choice(VARIANTS[2:] if reps > 40 else VARIANTS), "fitting": False,
                   "ids": rng.sample(range(10, 99), len(ws))}
    while n:
        net, t = c05.rand_net(rng)
        if net is None or not gens.final_reachable(net, 80):
            continue
        n -= 1
        ws = c05.rand_words(rng, net, t, rng.randint(1, 4))
        ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 4))]
        df = rng.random() < .5
        if not df and rng.random() < .3:
            ws.append([])
        ws = [w for w in ws if w or not df] or [["a"]]
        rng.shuffle(ws)
        yield {"net": net, "ws": ws, "df": df, "v": rng.choice(VARIANTS), "fitting": rng.random() < .5,
               "ids": rng.sample(range(10, 99), len(ws))}


def run(case):
    import pm4py
    from pm4py.algo.conformance.alignments.petri_net import algorithm as al
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    log = gens.word_log(case["ws"])
    for c, i in zip(log, case["ids"]):
        c["id"] = "c%d" % i
    if case["df"]:
        obj = gens.to_df(log, order=gens.time_order(log))
        # the rows of a dataframe are processed case by case, in the order of the case identifiers
        ws = [w for _, w in sorted(zip([c["id"] for c in log], case["ws"]))]
    else:
        obj = gens.to_eventlog(log)
        ws = case["ws"]
    var = getattr(al.Variants, case["v"]) if case["v"] else None
    diag = pm4py.conformance_diagnostics_alignments(obj, pn, im, fm, variant_str=var, **gens.kw(obj))
    fit = pm4py.fitness_alignments(obj, pn, im, fm, variant_str=var, **gens.kw(obj))
    evs = [{"op": "fitness", "net": net, "ws": ws,
            "d": [{"cost": int(d["cost"]) // 10000, "bwc": int(d["bwc"]) // 10000, "f": gens.frac(d["fitness"])} for d in diag],
            "perc": round(fit["percFitTraces"] * 1000), "perc2": round(fit["percentage_of_fitting_traces"] * 1000),
            "avg": round(fit["averageFitness"] * 10 ** 6), "avg2": round(fit["average_trace_fitness"] * 10 ** 6),
            "log": round(fit["log_fitness"] * 10 ** 6)}]
    if case["fitting"]:
        import warnings
        warnings.simplefilter("ignore")
        ans = []
        for w in case["ws"][:3]:
            ans.append(bool(pm4py.conformance.check_is_fitting(tuple(w), pn, im, fm)))
        evs.append({"op": "fitting", "net": net, "ws": case["ws"][:3], "ans": ans})
    return evs


def nontrivial(case, evs):
    return any(e["op"] == "fitness" and len(set(d["f"][0] == d["f"][1] for d in e["d"])) == 2 for e in evs)
