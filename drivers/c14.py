"""C14: directly-follows and eventually-follows graphs."""
from vf import core, gens

MODULE = "TrC14"
RULE = "random logs (repeated activities, single-event and repeated cases, ties, interval events) as event log / dataframe with arbitrarily interleaved rows / event stream / typed graph, windows 1..3, once per case, triples, eventually-follows with and without first-following, case-attribute annotation; non-trivial: some pair occurs twice"
LABELS = ["a", "b", "c", "d", "A b"]


def cases(rng, tier):
    n = 700 if tier == "quick" else 8000
    for i in range(n):
        log = gens.rlog(rng, LABELS[:rng.randint(1, 5)], rng.randint(1, 6), rng.choice([3, 6, 9]), ties=rng.choice([0, .3, .8]), maxdt=rng.choice([2, 50, 7200]))
        k = rng.choice(["dfg", "dfg", "win", "triples", "efg", "efg", "efg_iv", "ca", "acts"])
        rep = rng.choice(["log", "df", "df", "stream"])
        c = {"k": k, "rep": rep, "keys": rng.random() < .3}
        if k == "efg_iv":
            for x in log:
                for e in x["ev"]:
                    e["s"] = max(0, e["t"] - rng.choice([0, 0, 1, 30, 4000]))
                x["ev"].sort(key=lambda e: (e["s"], e["t"]))
        if rep in ("log", "stream") and rng.random() < .15 and rep == "log":
            log[0]["ev"] = []
        c["log"] = log
        if rep != "log":
            c["order"] = gens.interleaving(rng, log)
        if k == "win":
            c.update(win=rng.randint(1, 3), once=rng.random() < .5)
        if k.startswith("efg"):
            c["first"] = rng.random() < .4
        c["how"] = rng.randrange(4)
        yield c


def run(case):
    import pm4py
    from pm4py.algo.discovery.dfg import algorithm as dd
    from pm4py.util import constants as C
    log = case["log"]
    keys = {}
    kw = {}
    if case["keys"]:
        keys = {"a": "act", "t": "when"}
        kw = {"activity_key": "act", "timestamp_key": "when"}
    w = [[e["a"] for e in c["ev"]] for c in log]
    rep, k = case["rep"], case["k"]
    kcase = "case:concept:name"
    if case["keys"] and rep == "df":
        keys["case"] = kcase = "CASE"
        kw["case_id_key"] = kcase
    if rep == "log":
        x = gens.to_eventlog(log, keys)
    elif rep == "df":
        x = gens.to_df(log, keys, case["order"])
    else:
        x = gens.to_stream(log, keys, case["order"])
    par = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: keys.get("a", "concept:name"), C.PARAMETER_CONSTANT_TIMESTAMP_KEY: keys.get("t", "time:timestamp"), C.PARAMETER_CONSTANT_CASEID_KEY: kcase}
    T = lambda d: [list(p) + [int(n)] for p, n in d.items()]
    U = lambda d: [[p, int(n)] for p, n in d.items()]
    if k == "dfg":
        if rep == "stream":
            evlog = pm4py.convert_to_event_log(x)
            d = dd.apply(x, parameters=par) if case["how"] % 2 else pm4py.discover_dfg(evlog, **kw)[0]
            sa, ea = pm4py.get_start_activities(evlog, **kw), pm4py.get_end_activities(evlog, **kw)
        elif rep == "df" and case["how"] == 0:
            g = pm4py.discover_dfg_typed(x, **kw)
            d, sa, ea = g.graph, g.start_activities, g.end_activities
        elif rep == "df" and case["how"] == 1:
            d = dd.apply(x, parameters=par)
            sa, ea = pm4py.get_start_activities(x, **kw), pm4py.get_end_activities(x, **kw)
        else:
            d, sa, ea = pm4py.discover_dfg(x, **kw)
        return {"op": "dfg", "w": w, "df": T(d), "sa": U(sa), "ea": U(ea)}
    if k == "win":
        if rep == "df":
            from pm4py.algo.discovery.dfg.adapters.pandas.df_statistics import get_dfg_graph
            d = get_dfg_graph(x, activity_key=par[C.PARAMETER_CONSTANT_ACTIVITY_KEY], timestamp_key=par[C.PARAMETER_CONSTANT_TIMESTAMP_KEY], case_id_glue=kcase, window=case["win"], keep_once_per_case=case["once"])
        else:
            d = dd.apply(x, parameters=dict(par, window=case["win"], keep_once_per_case=case["once"]), variant=dd.Variants.NATIVE)
        return {"op": "win", "w": w, "win": case["win"], "once": case["once"], "df": T(d)}
    if k == "triples" and rep == "df" and case["how"] % 2:
        from pm4py.algo.discovery.dfg.adapters.pandas import freq_triples
        return {"op": "triples", "w": w, "df": T(freq_triples.get_freq_triples(x, activity_key=keys.get("a", "concept:name"), case_id_glue=kcase, timestamp_key=keys.get("t", "time:timestamp")))}
    if k == "triples":
        d = dd.apply(x, parameters=par, variant=dd.Variants.FREQ_TRIPLES)
        return {"op": "triples", "w": w, "df": T(d)}
    if k == "acts":
        if rep == "stream":
            x = pm4py.convert_to_event_log(x)
        return {"op": "acts", "w": w, "acts": U(pm4py.get_event_attribute_values(x, keys.get("a", "concept:name"), **({"case_id_key": kcase} if rep == "df" else {})))}
    if k in ("efg", "efg_iv"):
        ev = [[{"a": e["a"], "s": e.get("s", e["t"]), "t": e["t"]} for e in c["ev"]] for c in log]
        p = dict(par, keep_first_following=case["first"])
        if k == "efg_iv":
            p[C.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = "start_timestamp"
        elif rep == "df" and not case["first"] and case["how"]:
            return {"op": "efg", "ev": ev, "first": False, "df": T(pm4py.discover_eventually_follows_graph(x, **kw))}
        if rep == "df":
            from pm4py.statistics.eventually_follows.pandas import get
        else:
            from pm4py.statistics.eventually_follows.log import get
            if case["how"] == 0 and not case["first"] and k == "efg" and rep == "log":
                return {"op": "efg", "ev": ev, "first": False, "df": T(pm4py.discover_eventually_follows_graph(x, **kw))}
            if case["how"] == 1 and k == "efg":
                from pm4py.statistics.eventually_follows.uvcl import get as g2
                from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureUVCL
                from collections import Counter
                # the order alone decides
                ev = [[{"a": e["a"], "s": i, "t": i} for i, e in enumerate(c["ev"])] for c in log]
                return {"op": "efg", "ev": ev, "first": False, "df": T(g2.apply(IMDataStructureUVCL(Counter(tuple(y) for y in w))))}
        return {"op": "efg", "ev": ev, "first": case["first"], "df": T(get.apply(x, p))}
    d, nodes = dd.apply(gens.to_eventlog(log, keys) if rep == "df" else x, variant=dd.Variants.CASE_ATTRIBUTES, parameters=dict(par, case_attributes=["cattr"], return_nodes_attributes=True))
    return {"op": "ca", "w": w, "ca": [c["ca"] for c in log],
            "arcs": [[a, b, v, n] for (a, b), m in d.items() for at, q in m.items() for v, n in q.items()],
            "nodes": [[a, v, n] for a, m in nodes.items() for at, q in m.items() for v, n in q.items()]}


def nontrivial(case, evs):
    return any(x[-1] > 1 for e in evs for f in ("df", "arcs", "acts") for x in e.get(f, []))
