"""C20: streaming directly-follows discovery against batch discovery, after every prefix."""
from vf import core, gens

MODULE = "TrC20"
RULE = "random interleavings of the events of up to six cases (odd labels and case identifiers, incomplete events, custom keys, both dictionary variants), observed after every prefix, and the log-to-stream collector; non-trivial: two open cases and a repeated pair"
MC = [dict(module="MCStream", env={"NEVENTS": "5"}), dict(module="MCStream", env={"NEVENTS": "6"}, tier="thorough")]
LABELS = ["a", "a ", " b", "b", "c", "d e", "it's", 'q"q', "b\\c", "l1\nl2", "é", "('x', 'y')", "", "1", "None"]
IDS = ["1", "2", "c3", "x y", "o'k", "", "c3 ", "é"]


def cases(rng, tier):
    n = 700 if tier == "quick" else 6000
    for _ in range(n):
        labs = rng.sample(LABELS, rng.randint(1, 5))
        ids = rng.sample(IDS, rng.randint(1, 6)) if rng.random() < .7 else [1, 2, 30, -4]
        steps, pool = [], []
        for i in range(rng.randint(1, 24)):
            if pool and rng.random() < .3:
                a = pool[-1]
            else:
                a = rng.choice(labs)
            pool.append(a)
            steps.append([rng.choice(ids), a, rng.choice([0] * 12 + [1, 2])])
        yield {"steps": steps, "keys": rng.random() < .3, "enumkeys": rng.random() < .5, "dict": rng.choice(["def", "classic", "safe"]),
               "get": rng.choice(["all", "end", "some"]), "spoil": rng.random() < .3, "obj": rng.random() < .5, "static": rng.random() < .3}


def run(case):
    import logging
    import pandas as pd, pm4py
    from pm4py.objects.log.obj import Event
    from pm4py.streaming.algo.discovery.dfg import algorithm
    from pm4py.streaming.algo.discovery.dfg.variants.frequency import Parameters
    from pm4py.streaming.util.dictio import generator
    from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
    import random
    logging.disable(logging.CRITICAL)
    rng = random.Random(core.sha(case))
    ak, ck = ("act", "cid") if case["keys"] else ("concept:name", "case:concept:name")
    par = {}
    if case["keys"]:
        par = {Parameters.ACTIVITY_KEY: ak, Parameters.CASE_ID_KEY: ck} if case["enumkeys"] else {Parameters.ACTIVITY_KEY.value: ak, Parameters.CASE_ID_KEY.value: ck}
    if case["dict"] != "def":
        par[Parameters.DICT_VARIANT] = generator.Variants.CLASSIC if case["dict"] == "classic" else generator.Variants.THREAD_SAFE
    algo = algorithm.apply(parameters=par) if par else algorithm.apply()
    static = LiveToStaticStream() if case["static"] else None
    labs, ids = {}, {}

    def no(d, x):
        return d.setdefault(str(x), len(d) + 1)

    seen, obs, sent = [], [], []
    for c, a, miss in case["steps"]:
        e = {ck: c, ak: a, "x": 1}
        if miss == 1:
            del e[ck]
        elif miss == 2:
            del e[ak]
        else:
            seen.append([no(ids, c), no(labs, a)])
        ev = Event(e) if case["obj"] else dict(e)
        algo.receive(ev)
        if static is not None:
            static.receive(ev)
            sent.append(ev)
        if case["get"] == "all" or case["get"] == "some" and rng.random() < .3:
            obs.append([len(seen), look(algo, labs, case["spoil"])])
    obs.append([len(seen), look(algo, labs, case["spoil"])])
    out = [{"op": "stream", "steps": seen, "obs": obs}]
    if seen:
        rows = [{"case:concept:name": str(c), "concept:name": str(a)} for c, a, m in case["steps"] if m == 0]
        df = pd.DataFrame(rows)
        df["time:timestamp"] = pd.to_datetime([gens.ts(60 * i) for i in range(len(rows))], utc=True)
        g, s, e = pm4py.discover_dfg(df)
        out.append({"op": "batch", "steps": seen, "r": {"dfg": sorted([labs[x], labs[y], n] for (x, y), n in g.items()), "sa": cnt(s, labs), "ea": cnt(e, labs)},
                    "st": obs[-1][1]})
    if static is not None:
        st = static.get()
        out.append({"op": "static", "same": len(st) == len(sent) and all(dict(x) == dict(y) for x, y in zip(st, sent))})
    return out


def cnt(d, labs):
    return sorted([labs[x], n] for x, n in d.items())


def look(algo, labs, spoil):
    g, a, s, e = algo.get()
    r = {"dfg": sorted([labs[x], labs[y], n] for (x, y), n in g.items()), "acts": cnt(a, labs), "sa": cnt(s, labs), "ea": cnt(e, labs)}
    if spoil:  # what is handed out is not the live state
        for d in (g, a, s, e):
            d.clear()
    return r


def nontrivial(case, evs):
    e = evs[0]
    return len(set(c for c, _ in e["steps"])) > 1 and any(x[2] > 1 for x in e["obs"][-1][1]["dfg"])
