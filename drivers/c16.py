"""C16: variants and log statistics."""
from vf import core, gens

MODULE = "TrC16"
RULE = "random logs (shared words, repeated activities, missing attribute values, empty traces for event logs, arbitrarily interleaved dataframe rows, custom attribute names) through every counting statistic in both representations; non-trivial: some activity repeats inside a case or a variant has several cases"
LABELS = ["a", "b", "c", "d"]


def cases(rng, tier):
    n = 1200 if tier == "quick" else 12000
    for i in range(n):
        k = rng.choice(["vdf", "vdf", "variants", "variants", "split", "sorted", "lang", "vardur", "values", "values", "cvalues", "attrs", "rework", "rework_cases", "pos", "msd", "msd", "distr"])
        rep = "df" if k == "split" else rng.choice(["log", "df"])
        log = gens.rlog(rng, LABELS[:rng.randint(1, 4)], rng.randint(1, 7), rng.choice([2, 4, 8]), ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 60, 7200, 80000]))
        for c in log:
            for e in c["ev"]:
                if rng.random() < .15:
                    del e["r"]
        if rep == "log" and k in ("variants", "sorted", "lang", "vardur", "rework", "rework_cases", "pos", "msd", "values") and rng.random() < .2:
            log[rng.randrange(len(log))]["ev"] = []
        if k == "distr" and max(e["t"] for c in log for e in c["ev"]) > 28 * 86400:
            continue
        yield {"k": k, "log": log, "rep": rep, "keys": rng.random() < .3 and k not in ("lang", "attrs"), "x": rng.randrange(12),
               "order": gens.interleaving(rng, log) if rng.random() < .6 else [j for j, c in enumerate(log) for _ in c["ev"]]}


def run(case):
    import pm4py
    import importlib
    from pm4py.util import constants as C
    log, k, rep, x = case["log"], case["k"], case["rep"], case["x"]
    keys, kw, cid = {}, {}, {}
    kact, kts, kcase = "concept:name", "time:timestamp", "case:concept:name"
    if case["keys"]:
        kact, kts = "act", "when"
        keys = {"a": kact, "t": kts}
        kw = {"activity_key": kact, "timestamp_key": kts}
        if rep == "df":
            keys["case"] = kcase = "CASE"
            kw["case_id_key"] = kcase
            cid = {"case_id_key": kcase}
    L = gens.to_eventlog(log, keys) if rep == "log" else gens.to_df(log, keys, case["order"])
    par = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: kact, C.PARAMETER_CONSTANT_TIMESTAMP_KEY: kts}
    if rep == "df":
        par[C.PARAMETER_CONSTANT_CASEID_KEY] = kcase
    pk = "pandas" if rep == "df" else "log"
    base = {"w": [[e["a"] for e in c["ev"]] for c in log], "ids": [c["id"] for c in log]}
    U = lambda d: [[p, int(n)] for p, n in d.items()]
    if k == "variants":
        v = [pm4py.get_variants, pm4py.get_variants_as_tuples][x % 2](L, **kw)
        if rep == "df":
            return dict(base, op="variants", rep=[[list(p), int(n)] for p, n in v.items()])
        return dict(base, op="variants", rep=[[list(p), len(t), [y.attributes["concept:name"] for y in t], sum(len(y) for y in t)] for p, t in v.items()])
    if k == "vdf":
        cs = importlib.import_module("pm4py.statistics.traces.generic.%s.case_statistics" % pk)
        one = log[x % len(log)]["id"]
        ev = [[e[kact], gens.secs(e[kts])] for e in cs.get_events(L, one, parameters=par)]
        out = dict(base, op="vdf", one=one, t=[[e["t"] for e in c["ev"]] for c in log], events=ev, rep=[], lst=[], dur=[])
        if rep == "df":
            d, l = cs.get_variants_df_and_list(L, parameters=par)
            out["rep"] = [[c, list(v)] for c, v in d["variant"].items()]
            out["lst"] = [[list(v), int(n)] for v, n in l]
            d = cs.get_variants_df_with_case_duration(L, parameters=par)
            out["dur"] = [[c, list(v), int(round(y))] for c, v, y in zip(d.index, d["variant"], d["caseDuration"])]
        return out
    if k == "split":
        out = []
        for v, d in pm4py.split_by_process_variant(L, **kw):
            out.append([list(v), int(d[kcase].nunique()), list(dict.fromkeys(d[kcase])), len(d)])
            for c, g in d.groupby(kcase):
                assert list(g[kact]) == list(v) and list(g["@@index_in_trace"]) == list(range(len(g))), "rows of a case differ from its variant"
        return dict(base, op="variants", rep=out)
    if k == "sorted":
        cs = importlib.import_module("pm4py.statistics.traces.generic.%s.case_statistics" % pk)
        mx = x % 4
        p = dict(par)
        if mx:
            p["max_variants_to_return"] = mx
        v = cs.get_variant_statistics(L, parameters=p)
        return dict(base, op="sorted", max=mx, rep=[[list(y["variant"]), int(y["count" if rep == "log" else kcase])] for y in v])
    if k == "lang":
        return dict(base, op="lang", rep=[[list(p), gens.frac(q)] for p, q in pm4py.get_stochastic_language(L).items()])
    if k == "vardur":
        L = gens.to_eventlog(log, dict(keys, case="concept:name"))
        from pm4py.statistics.variants.log import get
        par.pop(C.PARAMETER_CONSTANT_CASEID_KEY, None)
        v, d = get.get_variants_along_with_case_durations(L, parameters=par)
        return dict(base, op="vardur", dur=[c["ev"][-1]["t"] - c["ev"][0]["t"] if c["ev"] else 0 for c in log], rep=[[list(p), [int(round(y)) for y in q]] for p, q in d.items()])
    if k == "values":
        if not any("r" in e for c in log for e in c["ev"]):
            x -= x % 3
        f, name = [("a", kact), ("r", "org:resource"), ("v", "val")][x % 3]
        once = x % 2 == 1
        d = pm4py.get_event_attribute_values(L, name, count_once_per_case=once, **cid)
        return dict(base, op="values", once=once, vals=[[[str(e[f])] if f in e else [] for e in c["ev"]] for c in log], rep=[[str(p), int(n)] for p, n in d.items()])
    if k == "cvalues":
        d = pm4py.get_trace_attribute_values(L, "cattr" if x % 2 else "case:cattr", **cid)
        return dict(base, op="cvalues", ca=[c["ca"] for c in log], rep=U(d))
    if k == "attrs":
        if x % 2:
            exp = ["concept:name", "time:timestamp", "val"] + (["org:resource"] if any("r" in e for c in log for e in c["ev"]) else [])
            if rep == "df":
                exp += ["case:concept:name", "case:cattr"]
            return dict(base, op="attrs", exp=exp, rep=list(pm4py.get_event_attributes(L)))
        return dict(base, op="attrs", exp=["cattr"] if rep == "log" else ["case:concept:name", "case:cattr"], rep=list(pm4py.get_trace_attributes(L)))
    if k == "rework":
        return dict(base, op="rework", rep=U(pm4py.get_rework_cases_per_activity(L, **kw)))
    if k == "rework_cases":
        g = importlib.import_module("pm4py.statistics.rework.cases.%s.get" % pk)
        return dict(base, op="rework_cases", rep=[[c, int(v["number_activities"]), int(v["rework"])] for c, v in g.apply(L, parameters=par).items()])
    if k == "pos":
        a = LABELS[x % 4]
        return dict(base, op="pos", a=a, rep=[[int(p), int(n)] for p, n in pm4py.get_activity_position_summary(L, a, **kw).items()])
    if k == "msd":
        out = dict(base, op="msd", rep=U(pm4py.get_minimum_self_distances(L, **kw)))
        out["wit"] = [[a, sorted(s)] for a, s in pm4py.get_minimum_self_distance_witnesses(L, **kw).items()]
        return out
    kind = ["hours", "days_week", "weeks", "days_month", "months", "years"][x % 6]
    g = importlib.import_module("pm4py.statistics.attributes.%s.get" % pk)
    a, b = g.get_events_distribution(L, kind, parameters=par)
    days = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
    return dict(base, op="distr", kind=kind, t=[e["t"] for c in log for e in c["ev"]], rep=[[days.index(p) if kind == "days_week" else int(p), int(q)] for p, q in zip(a, b)])


def nontrivial(case, evs):
    w = [tuple(e["a"] for e in c["ev"]) for c in case["log"]]
    return len(set(w)) < len(w) or any(len(set(y)) < len(y) for y in w)
