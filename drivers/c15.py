"""C15: performance statistics."""
from vf import core, gens

MODULE = "TrC15"
RULE = "random logs with plain or interval events (ties, zero-length intervals, equal case spans, arbitrarily interleaved dataframe rows, custom attribute names) through every time statistic in both representations, with and without business-hour slots; non-trivial: some duration is positive"
LABELS = ["a", "b", "c", "d"]
HOWS = ["mean", "median", "min", "max", "sum"]


def slots(rng):
    out = []
    for _ in range(rng.randint(1, 4)):
        x = rng.randint(0, 7 * 96 - 2)
        out.append([x * 900, min(7 * 96, x + rng.choice([1, 8, 40, 96, 200])) * 900])
    return out


def spectrum(rng):
    """Performance spectrum of a list of activities (names that are prefixes of one another included)."""
    al = rng.sample(["a", "aa", "b", "ab", "A b", "c"], rng.randint(2, 5))
    L = rng.sample(al, rng.randint(2, min(4, len(al))))
    dis = rng.random() < .5
    if not dis and rng.random() < .3:
        L.insert(rng.randrange(len(L) + 1), rng.choice(L))
    log = gens.rlog(rng, al, rng.randint(1, 5), 8, ties=rng.choice([0, 0, .3]), maxdt=60, attrs=False)
    for c in log:
        if rng.random() < .7:
            c["ev"] = [dict(e, a=a) for e, a in zip(c["ev"], sum((rng.choice([L, L, [rng.choice(al)], L[:2], L[1:]]) for _ in range(5)), []))]
    return {"k": "spec", "log": log, "L": L, "dis": dis, "rep": rng.choice(["log", "df"]), "keys": rng.random() < .3, "size": rng.choice([10000, 10000, 10000, 1, 2, 3]), "order": gens.interleaving(rng, log)}


def run_spectrum(case):
    from pm4py.algo.discovery.performance_spectrum import algorithm as ps
    log, df = case["log"], case["rep"] == "df"
    keys, P = {}, ps.Parameters
    par = {P.PARAMETER_SAMPLE_SIZE: case["size"]}
    if case["keys"]:
        keys = {"a": "act", "t": "when"}
        par.update({P.ACTIVITY_KEY: "act", P.TIMESTAMP_KEY: "when"})
        if df:
            keys["case"] = "CASE"
            par[P.CASE_ID_KEY] = "CASE"
    X = gens.to_df(log, keys, case["order"]) if df else gens.to_eventlog(log, keys)
    L = list(case["L"])
    v = (ps.Variants.DATAFRAME_DISCONNECTED if df else ps.Variants.LOG_DISCONNECTED) if case["dis"] else None
    d = ps.apply(X, L, variant=v, parameters=par)
    assert d["list_activities"] == case["L"]
    b0 = int(gens.BASE.timestamp())
    ev = [[{"a": e["a"], "t": e["t"]} for e in c["ev"]] for c in log]
    num = {c["id"]: i + 1 for i, c in enumerate(log)}
    S = lambda x: int(round(x - b0)) if abs(x - b0 - round(x - b0)) < 1e-3 else 1 / 0
    if case["dis"]:
        pts = [[num[p["case_id"]], [[a, S(t)] for a, t in p["points"]]] for p in d["points"]]
    else:
        pts = [[S(t) for t in p] for p in d["points"]]
    return {"op": "specd" if case["dis"] else "spec", "ev": ev, "L": case["L"], "size": case["size"], "pts": pts}


def cases(rng, tier):
    n = 900 if tier == "quick" else 9000
    for i in range(n):
        k = rng.choice(["dur", "dur", "arr", "cycle", "over", "iover", "serv", "serv", "perf", "perf", "perf", "conc", "pass", "paths", "cost", "since"])
        if i % 9 == 4:
            yield spectrum(rng)
            continue
        bh = k in ("dur", "serv", "perf") and rng.random() < .35
        log = gens.rlog(rng, LABELS[:rng.randint(1, 4)], rng.randint(1, 6) if k != "arr" else rng.randint(2, 7), rng.choice([2, 4, 7]),
                        ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 5, 60] if not bh else [40000, 200000]))
        iv = k in ("cycle", "over", "iover", "serv", "conc") or (k in ("perf",) and rng.random() < .4)
        if iv and rng.random() < .92:
            for x in log:
                for e in x["ev"]:
                    e["s"] = max(0, e["t"] - rng.choice([0, 0, 1, 3, 30] if not bh else [0, 900, 50000, 300000]))
                x["ev"].sort(key=lambda e: (e["s"], e["t"]))
        else:
            iv = False
        yield {"k": k, "log": log, "iv": iv, "bh": slots(rng) if bh else [], "rep": rng.choice(["log", "df"]) if k not in ("paths", "cost", "since") else "df",
               "keys": rng.random() < .3, "how": rng.choice(HOWS), "order": gens.interleaving(rng, log) if rng.random() < .6 else [j for j, c in enumerate(log) for _ in c["ev"]],
               "x": rng.randrange(6), "strict": rng.random() < .5}


def run(case):
    import pm4py
    from pm4py.util import constants as C
    if case["k"] == "spec":
        return run_spectrum(case)
    log, k, rep, how, x = case["log"], case["k"], case["rep"], case["how"], case["x"]
    keys, kw = {}, {}
    kact, kts, kcase = "concept:name", "time:timestamp", "case:concept:name"
    if case["keys"]:
        kact, kts = "act", "when"
        keys = {"a": kact, "t": kts}
        kw = {"activity_key": kact, "timestamp_key": kts}
        if rep == "df":
            keys["case"] = kcase = kw["case_id_key"] = "CASE"
    L = gens.to_eventlog(log, keys) if rep == "log" else gens.to_df(log, keys, case["order"])
    st = "start_timestamp" if case["iv"] else kts
    par = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: kact, C.PARAMETER_CONSTANT_TIMESTAMP_KEY: kts, C.PARAMETER_CONSTANT_CASEID_KEY: kcase}
    if case["iv"]:
        par[C.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = st
    if case["bh"]:
        par.update(business_hours=True, business_hour_slots=[tuple(s) for s in case["bh"]])
    ev = [[{"a": e["a"], "s": e.get("s", e["t"]) if case["iv"] else e["t"], "t": e["t"], "v": e["v"]} for e in c["ev"]] for c in log]
    base = {"ev": ev, "bh": case["bh"], "how": how}
    num = {c["id"]: i + 1 for i, c in enumerate(log)}
    f = gens.frac
    bkw = {"business_hours": True, "business_hour_slots": par.get("business_hour_slots")} if case["bh"] else {}
    sec = lambda y: int(round(y)) if abs(y - round(y)) < 1e-6 else 1 / 0
    if k == "dur":
        ids = [c["id"] for c in log]
        allv = [sec(v) for v in pm4py.get_all_case_durations(L, **kw, **bkw)]
        one = ids[x % len(ids)]
        by = [[num[one], sec(pm4py.get_case_duration(L, one, **dict({"case_id_key": kcase if rep == "df" else None}, **kw), **bkw))]]
        if rep == "df":
            from pm4py.statistics.traces.generic.pandas import case_statistics as cs
        else:
            from pm4py.statistics.traces.generic.log import case_statistics as cs
            par.pop(C.PARAMETER_CONSTANT_CASEID_KEY)
        d = cs.get_cases_description(L, parameters=par)
        b0 = int(gens.BASE.timestamp())
        se = [[num[c], sec(v["startTime"]) - b0, sec(v["endTime"]) - b0] for c, v in d.items()]
        by += [[num[c], sec(v["caseDuration"])] for c, v in d.items()]
        assert len(d) == len(log), "cases missing from the description"
        return dict(base, op="dur", all=allv, by=by, se=se)
    if k == "arr":
        if rep == "df":
            from pm4py.statistics.traces.generic.pandas import case_arrival as ca
        else:
            from pm4py.statistics.traces.generic.log import case_arrival as ca
        return dict(base, op="arr", arr=f(pm4py.get_case_arrival_average(L, **kw)), disp=f(ca.get_case_dispersion_avg(L, par)))
    if k == "since":
        from pm4py.algo.discovery.dfg.variants import clean_time
        d = clean_time.apply(L, parameters=par)
        val = []
        for a, v in sorted(d.items()):
            D = 2520 * max(1, sum(any(e["a"] == a for e in c["ev"]) for c in log))
            val.append([a, [round(v.value * D / 1e9), D], abs(v.value - round(v.value * D / 1e9) / D * 1e9) < 5000])
        return dict(base, op="since", val=val)
    if k == "cycle":
        if case["iv"]:
            if rep == "df":
                from pm4py.statistics.traces.cycle_time.pandas import get
            else:
                from pm4py.statistics.traces.cycle_time.log import get
            v = get.apply(L, par)
        else:
            v = pm4py.get_cycle_time(L, **kw)
        return dict(base, op="cycle", val=f(v))
    if k in ("over", "iover"):
        seen = []
        pos = {}
        evs = []
        for i in (case["order"] if rep == "df" else [j for j, c in enumerate(log) for _ in c["ev"]]):
            if i + 1 not in seen:
                seen.append(i + 1)
            pos[i] = pos.get(i, 0) + 1
            evs.append([i + 1, pos[i]])
        if k == "over":
            if case["iv"]:
                import importlib
                v = importlib.import_module("pm4py.statistics.overlap.cases.%s.get" % ("pandas" if rep == "df" else "log")).apply(L, par)
            else:
                v = pm4py.get_case_overlap(L, **kw)
            return dict(base, op="over", val=[int(y) for y in v], order=seen)
        import importlib
        v = importlib.import_module("pm4py.statistics.overlap.interval_events.%s.get" % ("pandas" if rep == "df" else "log")).apply(L, par)
        return dict(base, op="iover", val=[int(y) for y in v], order=evs)
    if k == "serv":
        if case["bh"]:
            import importlib
            v = importlib.import_module("pm4py.statistics.service_time.%s.get" % ("pandas" if rep == "df" else "log")).apply(L, dict(par, aggregationMeasure=how))
        else:
            v = pm4py.get_service_time(L, aggregation_measure=how, start_timestamp_key=st, **kw)
        return dict(base, op="serv", val=[[a, f(y)] for a, y in v.items()])
    if k == "perf":
        T = lambda d: [[a, b, f(y)] for (a, b), y in d.items()]
        if not case["iv"] and x < 3:
            d = pm4py.discover_performance_dfg(L, **kw, **bkw)[0]
            out = [dict(base, op="perf", how=h, val=T({p: y[h] for p, y in d.items()})) for h in HOWS]
            if not case["bh"]:
                # a single value has no standard deviation: not compared
                c = {p: 0 if y["stdev"] != y["stdev"] else y["stdev"] ** 2 for p, y in d.items()}
                out.append(dict(base, op="perf", how="var", val=T(c)))
            return out
        if rep == "df":
            from pm4py.algo.discovery.dfg.adapters.pandas.df_statistics import get_dfg_graph
            a = dict(activity_key=kact, timestamp_key=kts, case_id_glue=kcase, start_timestamp_key=st if case["iv"] else None)
            if case["bh"]:
                a.update(business_hours=True, business_hours_slot=par["business_hour_slots"])
            if x == 3:
                d = get_dfg_graph(L, measure="performance", perf_aggregation_key="raw_values", **a)
                return dict(base, op="raw", val=[[p[0], p[1], [sec(z) for z in y]] for p, y in d.items()])
            if x == 4:
                fr, d = get_dfg_graph(L, measure="both", perf_aggregation_key=how, **a)
                return [dict(base, op="perf", val=T(d)), dict(base, op="freq", val=[[p[0], p[1], int(y)] for p, y in fr.items()])]
            return dict(base, op="perf", val=T(get_dfg_graph(L, measure="performance", perf_aggregation_key=how, **a)))
        from pm4py.algo.discovery.dfg import algorithm as dd
        if x == 3:
            d = dd.apply(L, variant=dd.Variants.PERFORMANCE, parameters=dict(par, aggregationMeasure="raw_values"))
            return dict(base, op="raw", val=[[p[0], p[1], [sec(z) for z in y]] for p, y in d.items()])
        d = dd.apply(L, variant=dd.Variants.PERFORMANCE, parameters=dict(par, aggregationMeasure=how))
        return dict(base, op="perf", val=T(d))
    if k == "conc":
        import importlib
        v = importlib.import_module("pm4py.statistics.concurrent_activities.%s.get" % ("pandas" if rep == "df" else "log")).apply(L, dict(par, strict=case["strict"]))
        return dict(base, op="conc", strict=case["strict"], val=[[a, b, int(n)] for (a, b), n in v.items()])
    if k == "pass":
        from pm4py.statistics.passed_time.log import algorithm as pt
        if rep == "df":
            from pm4py.statistics.passed_time.pandas import algorithm as pt
        acts = sorted({e["a"] for c in log for e in c["ev"]})
        a = acts[x % len(acts)]
        v = [pt.Variants.PRE, pt.Variants.POST, pt.Variants.PREPOST][case["strict"] + (x > 2)]
        d = pt.apply(L, a, variant=v, parameters=par)
        out = dict(base, op="pass", a=a)
        if "pre" in d:
            out.update(pre=[[y[0], f(y[1]), int(y[2])] for y in d["pre"]], preavg=f(d["pre_avg_perf"]))
        if "post" in d:
            out.update(post=[[y[0], f(y[1]), int(y[2])] for y in d["post"]], postavg=f(d["post_avg_perf"]))
        return out
    if k == "paths":
        d = pm4py.get_variants_paths_duration(L, times_agg=how, **kw)
        val = [{"v": list(r["@@variant_column"]), "i": int(r["@@index_in_trace"]) + 1, "a": r[kact], "b": r[kact + "_2"], "d": f(r["@@flow_time"]),
                "cum": int(r["@@cumulative_occ_path_column"]), "n": int(r["@@variant_count"])} for r in d.to_dict("records")]
        return dict(base, op="paths", val=val)
    from pm4py.algo.discovery.dfg.adapters.pandas.df_statistics import get_dfg_graph
    d = get_dfg_graph(L, measure="cost", cost_attribute="val", perf_aggregation_key=how, activity_key=kact, timestamp_key=kts, case_id_glue=kcase)
    return dict(base, op="cost", val=[[a, b, f(y)] for (a, b), y in d.items()])


def nontrivial(case, evs):
    return any(y["t"] > y.get("s", y["t"]) or (i and y["t"] > c[i - 1]["t"]) for e in evs for c in e.get("ev", []) for i, y in enumerate(c))
