"""C08: footprints of logs, process trees, nets and DFGs, and footprint conformance."""
from vf import core, gens
from drivers import c05

MODULE = "TrC08"
OWN_NAMES = 0.2
RULE = "all trees with at most 4 leaves and one silent leaf (TLC-enumerated), random logs (event log, dataframe, case by case) and models (trees with duplicate labels and all operators, bounded nets, DFGs): footprints and their comparison; non-trivial: a two-directional pair occurs"
LABELS = ["a", "b", "c", "d", "e"]
TOPS = ["seq", "xor", "par", "loop", "or"]


def cases(rng, tier):
    for t in gens.all_trees(4, 1) if tier == "quick" else gens.all_trees(4, 2, True):
        yield {"k": "tree", "tree": t}
    n = 500 if tier == "quick" else 6000
    for i in range(n):
        k = rng.choice(["log", "tree", "tree", "net", "conf", "conf"])
        t = gens.rtree(rng, LABELS, rng.randint(2, 6), ops=TOPS if rng.random() < .4 else None, tau=.25, dup=rng.random() < .4)
        ws = []
        for _ in range(rng.randint(1, 5)):
            w = gens.words_of_tree(rng, t)[:8] if rng.random() < .6 else [rng.choice(LABELS) for _ in range(rng.randint(0, 5))]
            ws.append(gens.mutate_word(rng, w, LABELS, .3))
        ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 2))]
        rep = rng.choice(["log", "df", "traces"])
        if rep == "df":
            ws = [w or ["a"] for w in ws]
        if k == "net":
            net, tt = c05.rand_net(rng)
            if net is None or gens.reach(net, 60) is None:
                continue
            yield {"k": k, "net": net}
        elif k == "tree":
            yield {"k": k, "tree": t}
        elif k == "log":
            yield {"k": k, "ws": ws, "rep": rep}
        else:
            m = rng.choice(["tree", "tree", "net", "log"])
            net = None
            if m == "net":
                net, tt = c05.rand_net(rng)
                if net is None or gens.reach(net, 60) is None:
                    continue
            yield {"k": k, "ws": ws, "rep": rep, "m": m, "tree": t, "net": net, "ws2": [gens.mutate_word(rng, rng.choice(ws), LABELS, .4) or ["a"] for _ in range(3)]}


def fpj(f):
    s = lambda x: sorted(x)
    r = {"seq": s(map(list, f["sequence"])), "par": s(map(list, f["parallel"])), "acts": s(f["activities"]), "starts": s(f["start_activities"])}
    if "end_activities" in f:
        r["ends"] = s(f["end_activities"])
    if "min_trace_length" in f:
        r["min"] = int(f["min_trace_length"])
    if "dfg" in f:
        r["dfg"] = sorted([a, b, int(n)] for (a, b), n in f["dfg"].items())
    if "skippable" in f:
        r["skip"] = bool(f["skippable"])
    if "activities_always_happening" in f:
        r["always"] = s(f["activities_always_happening"])
    return r


def logobj(case):
    log = gens.word_log(case["ws"])
    if case["rep"] == "df":
        return gens.to_df(log, order=gens.time_order(log))
    return gens.to_eventlog(log)


def log_fp(case):
    import pm4py
    from pm4py.algo.discovery.footprints import algorithm as fpd
    obj = logobj(case)
    if case["rep"] == "log":
        return fpd.apply(obj, variant=fpd.Variants.ENTIRE_EVENT_LOG, parameters=gens.kp(obj))
    # (the simplified functions have no arguments for the attribute names)
    return fpd.apply(obj, parameters=gens.kp(obj)) if gens.KEYED else pm4py.discover_footprints(obj)


def run(case):
    import warnings
    warnings.simplefilter("ignore")
    import pm4py
    k = case["k"]
    if k == "log":
        f = log_fp(case)
        if case["rep"] == "traces":
            return [{"op": "log", "ws": [w], "f": fpj(x)} for w, x in zip(case["ws"], f)] if len(f) == len(case["ws"]) else [{"op": "exc", "exc": "wrong number of results"}]
        return [{"op": "log", "ws": case["ws"], "f": fpj(f)},
                {"op": "dfg", "dfg": [[a, b] for a, b in f["dfg"]], "f": fpj(pm4py.discover_footprints(dict(f["dfg"])))}]
    if k == "tree":
        return {"op": "tree", "tree": case["tree"], "f": fpj(pm4py.discover_footprints(gens.tree_to_pm(case["tree"])))}
    if k == "net":
        pn, im, fm, ps, ts = gens.net_to_pm(case["net"])
        return {"op": "net", "net": case["net"], "f": fpj(pm4py.discover_footprints(pn, im, fm))}
    if case["m"] == "tree":
        margs = (gens.tree_to_pm(case["tree"]),)
    elif case["m"] == "net":
        margs = gens.net_to_pm(case["net"])[:3]
    else:
        from pm4py.algo.discovery.footprints import algorithm as fpd
        margs = (fpd.apply(gens.to_eventlog(gens.word_log(case["ws2"])), variant=fpd.Variants.ENTIRE_EVENT_LOG, parameters=gens.kp([])),)
    mf = margs[0] if case["m"] == "log" else pm4py.discover_footprints(*margs)
    first = log_fp(case) if case["rep"] == "log" or gens.KEYED else logobj(case)
    conf = pm4py.conformance_diagnostics_footprints(first, *margs)
    fit = pm4py.fitness_footprints(first, *margs)
    prec = pm4py.precision_footprints(first, *margs)
    traces = case["rep"] == "traces"
    from pm4py.algo.conformance.footprints import algorithm as fpc
    strict = fpc.apply(log_fp(case), mf, variant=fpc.Variants.LOG_MODEL, parameters={"strict": True}) if not traces else set()
    m = {"pairs": sorted(map(list, set(mf["sequence"]) | set(mf["parallel"]))), "seq": sorted(map(list, mf["sequence"])), "par": sorted(map(list, mf["parallel"])),
         "hs": "start_activities" in mf, "he": "end_activities" in mf, "ha": "activities_always_happening" in mf,
         "starts": sorted(mf.get("start_activities", ())), "ends": sorted(mf.get("end_activities", ())),
         "always": sorted(mf.get("activities_always_happening", ())), "min": int(mf.get("min_trace_length", 0))}
    cs = conf if isinstance(conf, list) else [conf]
    extra = {}
    if traces:
        obj = logobj(case)
        for i, t in enumerate(obj):
            t.attributes["concept:name"] = "i%d" % i
        from pm4py.algo.conformance.footprints.variants import trace_extensive
        df = trace_extensive.get_diagnostics_dataframe(obj, conf)
        cols = ["footprints_violations", "start_activities_violations", "end_activities_violations", "act_always_happening_violations"]
        extra["frame"] = [[str(a["case_id"]), bool(a["is_fit"]), bool(a["min_length_fit"])] + [int(a[c]) for c in cols] for a in df.to_dict("records")]
        extra["ids"] = ["i%d" % i for i in range(len(obj))]
    return {"op": "conf", **extra, "ws": case["ws"], "traces": traces, "m": m,
            "c": [{"fp": sorted(map(list, c["footprints"])), "starts": sorted(c["start_activities"]), "ends": sorted(c["end_activities"]),
                   "min": bool(c["min_length_fit"]), "fit": bool(c["is_footprints_fit"]),
                   "always": sorted(c.get("activities_always_happening", ()))} for c in cs],
            "fit": gens.frac(fit["log_fitness"] if traces else fit), "perc": round(fit["perc_fit_traces"] * 1000) if traces else 0,
            "prec": gens.frac(prec), "strict": sorted(map(list, strict))}


def nontrivial(case, evs):
    return any((e.get("f") or e.get("m") or {}).get("par") for e in evs)
