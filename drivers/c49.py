"""C49: batches."""
from vf import gens

MODULE = "TrC49"
RULE = "random logs with interval or plain events in any row order (ties, touching, nested and near intervals, identical events, merge distances and batch sizes, own attribute names) through the batch discovery of dataframes and event logs; non-trivial: some batch has three events"
MC = [dict(module="MCBatches", env={"N": "3"}), dict(module="MCBatches", env={"N": "4"}, tier="thorough")]


def cases(rng, tier):
    for i in range(500 if tier == "quick" else 6000):
        d = rng.choice([0, 1, 5, 60, 900])
        unit = max(1, d)
        acts, res = ["a", "b", "c"][:rng.randint(1, 3)], ["R1", "R2"][:rng.randint(1, 2)]
        span = rng.choice([4, 10, 30, 60])
        iv = rng.random() < .75
        log = []
        for c in range(rng.randint(1, 6)):
            ev = []
            for _ in range(rng.randint(1, 6)):
                s = rng.randint(0, span) * unit // rng.choice([1, 1, 1, 2]) + rng.choice([0, 0, 0, 1])
                e = {"a": rng.choice(acts), "r": rng.choice(res), "t": s}
                if iv:
                    e["s"] = s
                    e["t"] = s + rng.choice([0, 0, 1, unit, unit, 2 * unit, 7 * unit])
                ev.append(e)
            if rng.random() < .2:
                ev.append(dict(ev[-1]))
            ev.sort(key=lambda e: (e.get("s", 0), e["t"]))
            log.append({"id": "c%d" % c, "ev": ev})
        yield {"log": log, "iv": iv, "d": d, "min": rng.choice([1, 2, 2, 2, 3]), "rep": rng.choice(["df", "log"]), "own": rng.random() < .3,
               "idx": rng.random() < .3, "order": gens.interleaving(rng, log), "default": rng.random() < .1}


def run(case):
    import pm4py
    from pm4py.algo.discovery.batches import algorithm as batches
    P = batches.Variants.PANDAS.value.Parameters if case["rep"] == "df" else batches.Variants.LOG.value.Parameters
    from pm4py.algo.discovery.batches.utils.detection import Parameters as D
    log, df, own = case["log"], case["rep"] == "df", case["own"]
    keys = dict(a="act", t="when", r="res") if own else {}
    kcase = "case:concept:name"
    if own and df:
        keys["case"] = kcase = "CASE"
    if own and case["iv"]:
        keys["s"] = "begin"
    X = gens.to_df(log, keys, case["order"]) if df else gens.to_eventlog(log, keys)
    ka, kt, kr, ks = [keys.get(k, v) for k, v in zip("atrs", ["concept:name", "time:timestamp", "org:resource", "start_timestamp"])]
    idx = df and case["idx"]
    if idx:
        X["@@index"] = range(len(X))
    ev, n = [], 0
    if df:
        pos = {}
        for c in case["order"]:
            e = log[c]["ev"][pos.get(c, 0)]
            pos[c] = pos.get(c, 0) + 1
            ev.append([e, log[c]["id"], len(ev) + 1])
    else:
        ev = [[e, c["id"], 0] for c in log for e in c["ev"]]
    if case["iv"] or own:
        par = {P.ACTIVITY_KEY: ka, P.TIMESTAMP_KEY: kt, P.RESOURCE_KEY: kr, P.CASE_ID_KEY: kcase}
        if case["iv"]:
            par[P.START_TIMESTAMP_KEY] = ks
        if not case["default"]:
            par.update({D.MERGE_DISTANCE: case["d"], D.MIN_BATCH_SIZE: case["min"]})
        got = batches.apply(X, parameters=par)
    else:
        got = pm4py.discover_batches(X, **({} if case["default"] else dict(merge_distance=case["d"], min_batch_size=case["min"])))
    d, mn = (900, 2) if case["default"] else (case["d"], case["min"])
    b0 = gens.BASE.timestamp()

    def S(x):
        y = x - b0
        assert abs(y - round(y)) < 1e-3
        return int(round(y))
    out, four = [], False
    for (a, r), cnt, bs in got:
        b = []
        for kind, L in bs.items():
            for s, t, els in L:
                four = four or any(len(x) > 3 for x in els)
                b.append({"k": kind, "s": S(s), "t": S(t), "e": [{"s": S(x[0]), "t": S(x[1]), "c": x[2], "i": int(x[3]) + 1 if len(x) > 3 else 0} for x in sorted(els)]})
        out.append({"a": a, "r": r, "n": int(cnt), "b": b})
    assert not four or df
    num = idx or four
    return {"op": "batch", "d": d, "min": mn, "got": out,
            "ev": [{"a": e["a"], "r": e["r"], "s": e.get("s", e["t"]), "t": e["t"], "c": c, "i": i if num else 0} for e, c, i in ev]}


def nontrivial(case, evs):
    return any(len(b["e"]) > 2 for e in evs for g in e.get("got", []) for b in g["b"])
