"""C17: case-level filters."""
import importlib
from vf import core, gens

MODULE = "TrC17"
RULE = "random logs (shared words, ties, missing resources and values, empty traces for event logs, arbitrarily interleaved dataframe rows, custom attribute names) through every case-level filter with random arguments, both polarities, in both representations; non-trivial: some cases are kept and some are not"
LABELS = ["a", "ab", "b", "c d", "e+"]
NOV = -999999
KINDS = ["start", "end", "start_nocc", "end_nocc", "attr", "attr", "cattr", "numeric", "variants", "df", "ef", "efb", "efb", "efb", "next", "targets", "contained", "intersecting",
         "attr_time", "size", "perf", "perf_bh", "rework", "rep", "path_perf", "coverage", "max_coverage", "four_eyes", "same_person", "diff_persons", "segments",
         "prefixes", "suffixes", "topk", "ncases", "varperc"]
DF_ONLY = ("perf_bh", "targets", "start_nocc", "end_nocc", "prefixes", "suffixes")
LOG_ONLY = ("varperc",)


def mklog(rng, empties):
    log = gens.rlog(rng, LABELS[:rng.randint(1, 5)], rng.randint(1, 7), rng.choice([2, 4, 7]), ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 5, 60, 7200]), resources=("R1", "R2", "R3")[:rng.randint(1, 3)])
    i = 0
    for c in log:
        for e in c["ev"]:
            e["i"] = i
            i += 1
            if rng.random() < .12:
                del e["r"]
            if rng.random() < .12:
                del e["v"]
    if empties and rng.random() < .2:
        log[rng.randrange(len(log))]["ev"] = []
    return log


def cases(rng, tier):
    n = 1400 if tier == "quick" else 13000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        rep = "df" if k in DF_ONLY else "log" if k in LOG_ONLY else rng.choice(["log", "df"])
        log = mklog(rng, rep == "log" and k not in ("varperc",))
        evs = [e for c in log for e in c["ev"]]
        if not evs:
            continue
        T = [e["t"] for e in evs] + [0]
        lab = sorted({e["a"] for e in evs}) + ["zz"]
        A = lambda: rng.choice(lab)
        W = [[e["a"] for e in c["ev"]] for c in log]
        word = lambda: list(rng.choice(W)) if rng.random() < .7 else [A() for _ in range(rng.randint(1, 3))]
        tt = lambda: rng.choice(T) + rng.choice([0, 0, 0, -1, 1])
        p = {"pos": True}
        if k in ("start", "end", "attr", "cattr", "variants", "df", "ef", "efb", "next", "targets", "path_perf", "diff_persons", "segments", "prefixes", "suffixes", "rework", "numeric"):
            p["pos"] = rng.random() < .6
        if k in ("start", "end"):
            p["vals"] = list({A() for _ in range(rng.randint(1, 3))})
        elif k in ("start_nocc", "end_nocc"):
            p["x"] = rng.randint(1, 4)
        elif k == "attr":
            p["field"] = rng.choice("aarv")
            dom = [e[p["field"]] for e in evs if p["field"] in e] or ["R1"]
            p["vals"] = list({rng.choice(dom) for _ in range(rng.randint(1, 2))})
        elif k == "cattr":
            p["vals"] = list({rng.choice("xyz") for _ in range(rng.randint(1, 2))})
        elif k == "numeric":
            lo = rng.randint(0, 5)
            p.update(lo=lo, hi=lo + rng.randint(0, 3), s1=rng.choice(["", "", A()]), s2=rng.choice(["", "", "R1"]))
        elif k == "variants":
            p["vals"] = [word() for _ in range(rng.randint(1, 3))]
        elif k == "df":
            p["vals"] = [[A(), A()] for _ in range(rng.randint(1, 3))]
        elif k == "ef":
            p["vals"] = [[A() for _ in range(rng.choice([2, 2, 2, 3]))] for _ in range(rng.randint(1, 3))]
        elif k == "efb":
            m = rng.choice([2, 2, 3, 4])
            p["vals"] = [A() for _ in range(m)]
            p["bounds"] = []
            v = rng.choice([c["ev"] for c in log if c["ev"]])
            if len(v) >= m and rng.random() < .6:    # values and bounds around those of a case
                q = sorted(rng.sample(range(len(v)), m))
                p["vals"] = [v[i]["a"] for i in q]
                gaps = [v[y]["t"] - v[x]["t"] for x, y in zip(q, q[1:])]
                p["bounds"] = [[max(0, g - rng.choice([0, 1, 60])), g + rng.choice([0, 0, 5, -1, 60])] for g in gaps]
                m = 1
            for _ in range(m - 1):
                lo = rng.choice([0, 1, 5, 60])
                p["bounds"].append([lo, lo + rng.choice([0, 5, 60, 3600, 10 ** 6])])
        elif k == "targets":
            p["vals"] = [[A(), rng.choice(["R1", "R2", "R3"])] for _ in range(rng.randint(1, 3))]
        elif k == "next":
            w = rng.choice([v for v in W if v])
            q = rng.randrange(len(w))
            p["vals"] = (w[q:q + 3] + [A(), A()])[:3]
        elif k in ("contained", "intersecting"):
            a, b = sorted([tt(), tt()])
            p.update(lo=a, hi=b)
        elif k == "attr_time":
            a, b = sorted([tt(), tt()])
            f = rng.choice("ar")
            p.update(lo=a, hi=b, field=f, val=A() if f == "a" else "R1")
        elif k == "size":
            lo = rng.randint(0, 4)
            p.update(lo=lo, hi=lo + rng.randint(0, 3) if rng.random() < .75 else 10 ** 6)
        elif k == "perf":
            D = [c["ev"][-1]["t"] - c["ev"][0]["t"] for c in log if c["ev"]]
            a, b = sorted([rng.choice(D), rng.choice(D + [0])])
            p.update(lo=a, hi=b)
        elif k == "perf_bh":
            from drivers import c15
            # spans of days
            f = rng.choice([600, 9000]) if max(T) < 2000 else 40 if max(T) < 40000 else 1
            for c in log:
                for e in c["ev"]:
                    e["t"] = min(e["t"] * f, 40 * 86400)
            a, b = sorted([rng.choice([0, 1, 3600, 20000, 90000, 200000]), rng.choice([0, 900, 7200, 60000, 300000, 900000])])
            p.update(lo=a, hi=b, bh=c15.slots(rng))
        elif k == "rework":
            p.update(val=A(), lo=rng.randint(1, 3))
        elif k == "rep":
            f = rng.choice("arv")
            lo = rng.randint(1, 3)
            p.update(field=f, val={"a": A(), "r": "R1", "v": rng.randint(0, 5)}[f], lo=lo, hi=lo + rng.randint(0, 2))
        elif k == "path_perf":
            w = rng.choice([v for v in W if v])
            q = rng.randrange(len(w))
            p["vals"] = (w[q:q + 2] + [A()])[:2]
            a, b = sorted([rng.choice([0, 1, 5, 60, 3600]), rng.choice([0, 5, 60, 7200])])
            p.update(lo=a, hi=b)
        elif k in ("coverage", "max_coverage", "varperc"):
            p.update(num=rng.randint(0, 8), den=8)
        elif k in ("four_eyes", "same_person"):
            p["vals"] = [A(), A()]
        elif k == "diff_persons":
            p["val"] = A()
        elif k == "segments":
            p["vals"] = []
            for _ in range(rng.randint(1, 2)):
                w = word() or [A()]
                out = []
                for a in w:
                    if rng.random() < .35:
                        if not out or out[-1] != "...":
                            out.append("...")
                    else:
                        out.append(a)
                if rng.random() < .3 and out[-1] != "...":
                    out.append("...")
                p["vals"].append(out)
        elif k in ("prefixes", "suffixes"):
            p["vals"] = []
            for _ in range(rng.randint(1, 2)):
                w = word()
                q = rng.randint(1, max(1, len(w)))
                p["vals"].append(w[:q] if k == "prefixes" else w[-q:])
        elif k in ("topk", "ncases"):
            p["x"] = rng.randint(1, 5)
        yield {"k": k, "log": log, "rep": rep, "p": p, "keys": rng.random() < .3, "low": rng.random() < .4,
               "order": gens.interleaving(rng, log) if rng.random() < .5 else [j for j, c in enumerate(log) for _ in c["ev"]]}


def setup(case):
    """(log object, names of the attributes, simplified-interface keywords, parameters)"""
    from pm4py.util import constants as C
    rep = case["rep"]
    N = {"a": "concept:name", "t": "time:timestamp", "r": "org:resource", "v": "val", "case": "concept:name" if rep == "log" else "case:concept:name", "ca": "cattr" if rep == "log" else "case:cattr"}
    keys = {}
    if case["keys"]:
        keys = {"a": "act", "t": "when", "r": "who"}
        if rep == "df":
            keys["case"] = "CASE"
    N.update(keys)
    L = gens.to_eventlog(case["log"], keys) if rep == "log" else gens.to_df(case["log"], keys, case["order"])
    kw = {}
    if case["keys"]:
        kw = {"activity_key": N["a"], "timestamp_key": N["t"]}
        if rep == "df":
            kw["case_id_key"] = N["case"]
    par = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: N["a"], C.PARAMETER_CONSTANT_TIMESTAMP_KEY: N["t"], C.PARAMETER_CONSTANT_RESOURCE_KEY: N["r"], C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: N["a"]}
    if rep == "df":
        par[C.PARAMETER_CONSTANT_CASEID_KEY] = N["case"]
    return L, N, kw, par


def ev(d, N):
    x = {"i": int(d["eid"]), "a": d[N["a"]], "t": gens.secs(d[N["t"]])}
    r, v = d.get(N["r"]), d.get(N["v"])
    x["r"] = r if isinstance(r, str) else ""
    x["v"] = NOV if v is None or v != v else int(v)
    return x


def out(L, N):
    from pm4py.objects.log.obj import EventLog, EventStream
    if isinstance(L, EventLog):
        return [{"id": t.attributes[N["case"]], "ca": t.attributes["cattr"], "ev": [ev({k: e[k] for k in e}, N) for e in t]} for t in L]
    assert not isinstance(L, EventStream), "an event stream was returned"
    res = []
    for c, g in L.groupby(N["case"], sort=False):
        rows = g.to_dict("records")
        assert len({x["case:cattr"] for x in rows}) == 1, "case attribute differs inside a case"
        res.append({"id": c, "ca": rows[0]["case:cattr"], "ev": [ev(x, N) for x in rows]})
    return res


def inp(log):
    return [{"id": c["id"], "ca": c["ca"], "ev": [{"i": e["i"], "a": e["a"], "t": e["t"], "r": e.get("r", ""), "v": e.get("v", NOV)} for e in c["ev"]]} for c in log]


def stamp(t):
    return gens.ts(t).strftime("%Y-%m-%d %H:%M:%S")


def run(case):
    import pm4py
    k, rep, p, low = case["k"], case["rep"], case["p"], case["low"]
    L, N, kw, par = setup(case)
    df = rep == "df"
    pk = "pm4py.algo.filtering.%s." % ("pandas" if df else "log")
    M = lambda m: importlib.import_module(pk + m)
    cid = {x: kw[x] for x in kw if x == "case_id_key"}
    ct = {x: kw[x] for x in kw if x != "activity_key"}
    rk = dict(kw, resource_key=N["r"])
    P = lambda **z: dict(par, **z)
    pos = p["pos"]
    base = dict(p, op="filter", f=k, w=inp(case["log"]))
    if k == "start":
        o = pm4py.filter_start_activities(L, p["vals"], retain=pos, **kw) if not low else M("start_activities.start_activities_filter").apply(L, p["vals"], parameters=P(positive=pos))
    elif k == "end":
        o = pm4py.filter_end_activities(L, set(p["vals"]), retain=pos, **kw) if not low else M("end_activities.end_activities_filter").apply(L, p["vals"], parameters=P(positive=pos))
    elif k == "start_nocc":
        o = M("start_activities.start_activities_filter").filter_df_on_start_activities_nocc(L, p["x"], case_id_glue=N["case"], activity_key=N["a"])
    elif k == "end_nocc":
        o = M("end_activities.end_activities_filter").filter_df_on_end_activities_nocc(L, p["x"], case_id_glue=N["case"], activity_key=N["a"])
    elif k == "attr":
        if df and N[p["field"]] not in L.columns:
            return []
        o = pm4py.filter_event_attribute_values(L, N[p["field"]], p["vals"], level="case", retain=pos, **cid)
    elif k == "cattr":
        o = pm4py.filter_trace_attribute_values(L, N["ca"], p["vals"], retain=pos, **cid)
    elif k == "numeric":
        if df and (N["v"] not in L.columns or N["r"] not in L.columns):
            return []
        q = P(positive=pos)
        q["pm4py:param:attribute_key"] = N["v"]
        for y, z, f in (("1", p["s1"], "a"), ("2", p["s2"], "r")):
            if z:
                q.update({"stream_filter_key" + y: N[f], "stream_filter_value" + y: z})
        o = M("attributes.attributes_filter").apply_numeric(L, p["lo"], p["hi"], parameters=q)
    elif k == "variants":
        o = pm4py.filter_variants(L, [tuple(x) for x in p["vals"]], retain=pos, **kw)
    elif k == "df":
        o = pm4py.filter_directly_follows_relation(L, [tuple(x) for x in p["vals"]], retain=pos, **kw)
    elif k == "ef":
        o = pm4py.filter_eventually_follows_relation(L, [tuple(x) for x in p["vals"]], retain=pos, **kw)
    elif k == "efb":
        o = M("ltl.ltl_checker").eventually_follows(L, p["vals"], parameters=P(positive=pos, enable_timestamp=True, timestamp_diff_boundaries=[tuple(b) for b in p["bounds"]]))
    elif k == "targets":
        if df and N["r"] not in L.columns:
            return []
        m = M("paths.paths_filter")
        o = m.apply(L, [tuple(x) for x in p["vals"]], parameters=P(positive=pos, target_attribute_key=N["r"]))
    elif k == "next":
        o = M("ltl.ltl_checker").A_next_B_next_C(L, *p["vals"], parameters=P(positive=pos))
    elif k in ("contained", "intersecting"):
        o = pm4py.filter_time_range(L, stamp(p["lo"]), stamp(p["hi"]), mode="traces_" + k, **ct)
    elif k == "attr_time":
        if df and N[p["field"]] not in L.columns:
            return []
        o = M("timestamp.timestamp_filter").filter_traces_attribute_in_timeframe(L, N[p["field"]], p["val"], stamp(p["lo"]), stamp(p["hi"]), parameters=par)
    elif k == "size":
        if p["hi"] == 10 ** 6:
            o = M("cases.case_filter").filter_on_case_size(L, N["case"], p["lo"]) if df else M("cases.case_filter").filter_on_case_size(L, p["lo"])
        else:
            o = pm4py.filter_case_size(L, p["lo"], p["hi"], **cid)
    elif k == "perf":
        o = pm4py.filter_case_performance(L, p["lo"], p["hi"], **ct)
    elif k == "perf_bh":
        o = M("cases.case_filter").filter_case_performance(L, p["lo"], p["hi"], parameters=P(business_hours=True, business_hour_slots=[tuple(x) for x in p["bh"]]))
    elif k == "rework":
        if low or not pos:
            q = P(min_occurrences=p["lo"]) if p["lo"] != 2 else P()
            q["positive"] = pos
            o = M("rework.rework_filter").apply(L, p["val"], parameters=q)
        else:
            o = pm4py.filter_activities_rework(L, p["val"], p["lo"], **kw)
    elif k == "rep":
        if df and N[p["field"]] not in L.columns:
            return []
        o = M("attr_value_repetition.filter").apply(L, p["val"], parameters=dict(P(min_rep=p["lo"], max_rep=p["hi"]), **{"pm4py:param:attribute_key": N[p["field"]]}))
    elif k == "path_perf":
        o = pm4py.filter_paths_performance(L, tuple(p["vals"]), p["lo"], p["hi"], keep=pos, **kw)
    elif k == "coverage":
        o = pm4py.filter_variants_by_coverage_percentage(L, p["num"] / p["den"], **kw)
    elif k == "max_coverage":
        o = pm4py.filter_variants_by_maximum_coverage_percentage(L, p["num"] / p["den"], **kw)
    elif k in ("four_eyes", "same_person", "diff_persons"):
        if df and N["r"] not in L.columns:
            return []
        if k == "four_eyes" and not low:
            o = pm4py.filter_four_eyes_principle(L, *p["vals"], **rk)
        elif k == "diff_persons":
            o = pm4py.filter_activity_done_different_resources(L, p["val"], **rk) if pos else M("ltl.ltl_checker").attr_value_different_persons(L, p["val"], parameters=P(positive=False))
        else:
            o = M("ltl.ltl_checker").four_eyes_principle(L, *p["vals"], parameters=P(positive=k == "four_eyes"))
    elif k == "segments":
        o = pm4py.filter_trace_segments(L, p["vals"], positive=pos, **kw)
    elif k in ("prefixes", "suffixes"):
        o = M({"prefixes": "starts_with.starts_with_filter", "suffixes": "ends_with.ends_with_filter"}[k]).apply(L, [tuple(x) for x in p["vals"]], parameters=P(positive=pos))
    elif k == "topk":
        base["op"] = "topk"
        o = pm4py.filter_variants_top_k(L, p["x"], **kw)
    elif k == "ncases":
        base["op"] = "ncases"
        m = M("cases.case_filter")
        o = m.filter_on_ncases(L, N["case"], p["x"]) if df else m.filter_on_ncases(L, p["x"])
    elif k == "varperc":
        base["op"] = "varperc"
        o = M("variants.variants_filter").filter_log_variants_percentage(L, p["num"] / p["den"], parameters=par)
    base["out"] = out(o, N)
    return base


def nontrivial(case, evs):
    return any(e.get("op") != "exc" and 0 < len(e["out"]) < len(e["w"]) for e in evs)

