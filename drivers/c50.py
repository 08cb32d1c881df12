"""C50: distance of stochastic languages, causal graphs, correlation mining."""
from vf import gens

MODULE = "TrC50"
RULE = "pairs of small logs (empty, repeated and shared traces, activities of several letters) through their stochastic languages and the earth mover distance; random weighted graphs through both causal graphs; logs with plain or interval events through the correlation miner with and without cases, own attribute names; non-trivial: a distance strictly between 0 and 1, or an arc in both directions"
MC = [dict(module="MCTransport", env={"N": "2"})]


def cases(rng, tier):
    for i in range(450 if tier == "quick" else 5000):
        k = rng.choice(["emd", "emd", "causal", "corr", "corr"])
        al = rng.sample(["a", "b", "ab", "A", "c d", "e"], rng.randint(1, 4))
        if k == "emd":
            n = rng.randint(1, 5)
            w = lambda: [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))]
            pool = [w() for _ in range(3)]
            side = lambda: [rng.choice(pool) if rng.random() < .6 else w() for _ in range(n)]
            x = side()
            y = rng.sample(x, n) if rng.random() < .15 else side()
            yield {"k": k, "x": x, "y": y, "how": rng.choice(["lev", "lev", "lev", "differ"]), "rep": rng.choice(["log", "dict"])}
        elif k == "causal":
            yield {"k": k, "dfg": [[a, b, rng.choice([0, 1, 2, 3, 7])] for a in al for b in al if rng.random() < .6]}
        else:
            log = gens.rlog(rng, al, rng.randint(1, 4), 5, ties=rng.choice([0, .3]), maxdt=rng.choice([5, 60]), attrs=False)
            iv = rng.random() < .4
            if iv:
                for c in log:
                    for e in c["ev"]:
                        e["s"] = max(0, e["t"] - rng.choice([0, 0, 1, 3, 10]))
                    c["ev"].sort(key=lambda e: (e["s"], e["t"]))
            yield {"k": k, "log": log, "iv": iv, "v": rng.choice(["classic", "trace"]), "rep": rng.choice(["log", "df"]),
                   "own": rng.random() < .35, "order": gens.interleaving(rng, log)}


def run(case):
    import pm4py
    if case["k"] == "emd":
        from pm4py.algo.evaluation.earth_mover_distance import algorithm as emd
        from pm4py.statistics.variants.log import get as variants_get
        from pm4py.objects.log.obj import EventLog, Trace, Event

        def lang(ws):
            if case["rep"] == "log":
                log = EventLog()
                for j, w in enumerate(ws):
                    log.append(Trace([Event({"concept:name": a, "time:timestamp": gens.ts(60 * i)}) for i, a in enumerate(w)], attributes={"concept:name": str(j)}))
                return pm4py.get_stochastic_language(log)
            d = {}
            for w in ws:
                d[tuple(w)] = d.get(tuple(w), 0) + 1
            return {w: c / len(ws) for w, c in d.items()}
        A, B = lang(case["x"]), lang(case["y"])
        if case["how"] == "lev":
            v, r = pm4py.compute_emd(A, B), pm4py.compute_emd(B, A)
        else:
            par = {"string_distance": lambda s, t: float(s != t)}
            v, r = emd.apply(A, B, parameters=par), emd.apply(B, A, parameters=par)
        n = 60 * len(case["x"])

        def rat(z):
            assert abs(z * n - round(z * n)) < 1e-4, "the distance %r is not a combination of the distances of the words" % z
            return [int(round(z * n)), n]
        return {"op": "emd", "x": case["x"], "y": case["y"], "how": case["how"], "val": rat(v), "rev": rat(r)}
    if case["k"] == "causal":
        from pm4py.algo.discovery.causal import algorithm as causal
        d = {(a, b): c for a, b, c in case["dfg"]}
        al = causal.apply(dict(d), variant=causal.CAUSAL_ALPHA)
        he = causal.apply(dict(d), variant=causal.CAUSAL_HEURISTIC)
        return {"op": "causal", "dfg": case["dfg"], "alpha": [list(p) for p in al], "heur": [[p[0], p[1], gens.frac(x)] for p, x in he.items()]}
    from pm4py.algo.discovery.correlation_mining import algorithm as cm
    log, df, own = case["log"], case["rep"] == "df", case["own"]
    keys = dict(a="act", t="when", s="begin") if own else {}
    if own and df:
        keys["case"] = "CASE"
    X = gens.to_df(log, keys, case["order"]) if df else gens.to_eventlog(log, keys)
    ka, kt, ks = [keys.get(k, v) for k, v in zip("ats", ["concept:name", "time:timestamp", "start_timestamp"])]
    v = case["v"]
    V = {"classic": cm.Variants.CLASSIC, "trace": cm.Variants.TRACE_BASED}[v]
    P = V.value.Parameters
    par = {P.ACTIVITY_KEY: ka, P.TIMESTAMP_KEY: kt, P.START_TIMESTAMP_KEY: ks if case["iv"] else kt} if own or case["iv"] else {}
    if own and df and v == "trace":
        par[P.CASE_ID_KEY] = "CASE"
    d, p = cm.apply(X, variant=V, parameters=par)
    ev = [[{"a": e["a"], "s": e.get("s", e["t"]), "t": e["t"]} for e in c["ev"]] for c in log]
    if v != "trace":
        ev = [[e for c in ev for e in c]]
    dfg = [[a, b, int(c)] for (a, b), c in d.items()]
    return {"op": "corr", "ev": ev, "dfg": dfg, "perf": [[a, b, gens.frac(x)] for (a, b), x in p.items()]}


def nontrivial(case, evs):
    for e in evs:
        if e["op"] == "emd" and 0 < e["val"][0] < e["val"][1]:
            return True
        if e["op"] in ("causal", "corr"):
            s = {(x[0], x[1]) for x in e["dfg"] if x[2] > 0}
            if any(a != b and (b, a) in s for a, b in s):
                return True
    return False
