"""C22: live streams under a controlled scheduler (and with free-running threads); flattening of object-centric events."""
import asyncio
from vf import core, gens, sched

MODULE = "TrC22"
RULE = "live event and trace streams with up to three producers, three algorithms (recorders, failing ones, directly-follows discovery queried meanwhile), late and ended registrations, early or late start, one or two stops, every interleaving chosen by a controlled scheduler (random walks and priority schedules, at synchronisation points or single lines) or free-running threads; flattening of object-centric events; non-trivial: several producers"
_MC = [dict(NPROD="2", NEV="2", POOL="2", NALGO="2", NSTOP="1"), dict(NPROD="2", NEV="2", POOL="3", NALGO="1", NSTOP="2")]
MC = [dict(module="LiveStream", env=dict(ORDERED="1", ALL="1", **e)) for e in _MC]
MC += [dict(module="LiveStream", env=dict(ORDERED="1", ALL="1", NPROD="3", NEV="3", POOL="3", NALGO="2", NSTOP="2"), tier="thorough")]
CASE_TIMEOUT = 60
FILES = ("/pm4py/streaming/",)


def cases(rng, tier):
    n = 1100 if tier == "quick" else 8000
    for i in range(n):
        x = rng.random()
        if x < .12:
            yield flat(rng)
            continue
        k = 0
        prods = []
        for _ in range(rng.randint(1, 3)):
            m = rng.randint(0, 5)
            prods.append(list(range(k + 1, k + m + 1)))
            k += m
        algos = [{"k": rng.choice(["rec", "rec", "rec", "dfg"]), "bad": [e for e in range(1, k + 1) if rng.random() < .15] if rng.random() < .3 else [],
                  "reg": rng.choice(["first", "first", "first", "late"]), "gone": rng.random() < .1} for _ in range(rng.randint(1, 3))]
        algos[0]["reg"] = "first"
        yield {"k": "live", "trace": rng.random() < .3, "prods": prods, "algos": algos, "start": rng.choice(["before", "middle", "after"]),
               "pool": rng.choice([1, 2, 3, None]), "stop": rng.choice(["joined", "joined", "concurrent"]), "stops": rng.choice([1, 1, 2]), "both": rng.random() < .5,
               "after": rng.random() < .5, "ask": rng.random() < .5, "free": x < .2, "seed": rng.randint(0, 10 ** 6),
               "mode": rng.choice(["walk", "walk", "pct"]), "p": rng.choice([.05, .2, .5, 1.0]), "lines": rng.random() < .3}


def flat(rng):
    types = rng.sample(["order", "item", "a b", "ocel:type:", "x", "item2"], rng.randint(1, 4))
    evs = []
    for i in range(rng.randint(1, 6)):
        evs.append({"n": i, "a": rng.choice("abc"), "objs": {t: ["%s%d" % (t, rng.randint(1, 3)) for _ in range(rng.randint(0, 3))] for t in types if rng.random() < .7}})
        for t in evs[-1]["objs"]:
            evs[-1]["objs"][t] = sorted(set(evs[-1]["objs"][t]))
    lis = [rng.choice(types + ["other"]) for _ in range(rng.randint(1, 4))]
    return {"k": "flat", "types": types, "evs": evs, "lis": lis, "keys": rng.random() < .3}


def run(case):
    import contextlib, io, logging
    logging.disable(logging.CRITICAL)
    with contextlib.redirect_stderr(io.StringIO()):
        if case["k"] == "flat":
            return distribute(case)
        if case["free"]:
            return free(case)
        return controlled(case)


def activity(e):
    return "abc"[e % 3]


def caseid(e):
    return str(e % 2)


def scenario(case, log, Thread, lookup):
    """the history of the run goes to log (a list; appending is atomic)"""
    from pm4py.objects.log.obj import Event
    from pm4py.streaming.algo.interface import StreamingAlgorithm
    from pm4py.streaming.algo.discovery.dfg.variants.frequency import StreamingDfgDiscovery
    if case["trace"]:
        from pm4py.streaming.stream.live_trace_stream import LiveTraceStream as Stream
    else:
        from pm4py.streaming.stream.live_event_stream import LiveEventStream as Stream

    class Rec(StreamingAlgorithm):
        def __init__(self, i, bad):
            self.i, self.bad = i, bad
            StreamingAlgorithm.__init__(self)

        def _process(self, ev):
            log.append(["d0", self.i, ev["n"]])
            log.append(["d1", self.i, ev["n"]])
            if ev["n"] in self.bad:
                raise ValueError("algorithm fails")

        def _current_result(self):
            return None

    class Dfg(StreamingDfgDiscovery):
        def __init__(self, i):
            self.i = i
            StreamingDfgDiscovery.__init__(self, parameters={})

        def _process(self, ev):
            log.append(["d0", self.i, ev["n"]])
            StreamingDfgDiscovery._process(self, ev)
            log.append(["d1", self.i, ev["n"]])

    stream = Stream(parameters={"thread_pool_size": case["pool"]} if case["pool"] else None)
    algos = [Dfg(i + 1) if a["k"] == "dfg" else Rec(i + 1, a["bad"]) for i, a in enumerate(case["algos"])]

    def register(i):
        log.append(["rc", i + 1, 0])
        stream.register(algos[i])
        log.append(["rr", i + 1, 0])

    def deregister(i):
        log.append(["uc", i + 1, 0])
        co = stream.deregister(algos[i])
        try:
            co.send(None)
        except StopIteration:
            pass
        log.append(["ur", i + 1, 0])

    def append(p, es):
        for e in es:
            log.append(["ac", p, e])
            stream.append(Event({"n": e, "concept:name": activity(e), "case:concept:name": caseid(e)}))
            log.append(["ar", p, e])

    def stop(k):
        log.append(["sc", k, 0])
        stream.stop()
        log.append(["sr", k, 0])

    def ask():
        for i, a in enumerate(case["algos"]):
            if a["k"] == "dfg":
                log.append(["gc", i + 1, 0])
                r = algos[i].get()
                log.append(["gr", i + 1, table(r)])

    for i, a in enumerate(case["algos"]):
        if a["reg"] == "first":
            register(i)
    if case["start"] == "before":
        stream.start()
    ts = [Thread(target=append, args=(p + 1, es)) for p, es in enumerate(case["prods"])]
    if case["ask"]:
        ts.append(Thread(target=ask))
    for t in ts:
        t.start()
    if case["start"] == "middle":
        stream.start()
    for i, a in enumerate(case["algos"]):
        if a["reg"] == "late":
            register(i)
    for i, a in enumerate(case["algos"]):
        if a["gone"]:
            deregister(i)
    joined = case["stop"] == "joined" or case["start"] == "after"
    if joined:
        for t in ts:
            t.join()
    if case["start"] == "after":
        stream.start()
    if case["stops"] == 2 and case["both"]:
        o = Thread(target=stop, args=(2,))
        o.start()
        stop(1)
        o.join()
    else:
        for k in range(case["stops"]):
            stop(k + 1)
    if not joined:
        for t in ts:
            t.join()
    if case["after"]:
        append(9, [90, 91])
    ask()
    if stream._mail_man is not None if hasattr(stream, "_mail_man") else False:
        lookup.append(stream._mail_man)


def table(r):
    g, a, s, e = r
    return {"dfg": sorted([x, y, n] for (x, y), n in g.items()), "acts": sorted(map(list, a.items())), "sa": sorted(map(list, s.items())), "ea": sorted(map(list, e.items()))}


def controlled(case):
    import random, pm4py.streaming.stream.live_event_stream, pm4py.streaming.stream.live_trace_stream, pm4py.streaming.algo.discovery.dfg.algorithm
    s = sched.Sched(random.Random(case["seed"]), mode=case["mode"], p=case["p"], files=FILES if case["lines"] else ())
    log = []
    with sched.patched(s, "pm4py.streaming") as ns:
        reason = s.run(lambda: scenario(case, log, ns["Thread"], []))
    if s.foreign:
        return free(case)
    for t in s.threads:
        if t.exc is not None and reason is None:
            if isinstance(t.exc, sched.Foreign):
                return free(case)
            raise t.exc
    return history(case, log, reason)


def free(case):
    import threading
    log, lookup, exc = [], [], []

    def body():
        try:
            scenario(case, log, threading.Thread, lookup)
        except BaseException as e:
            exc.append(e)

    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(25)
    if exc:
        raise exc[0]
    reason = "no end" if t.is_alive() else None
    for m in lookup:
        m.join(20)
        if m.is_alive():
            reason = "no end of the delivering thread"
    return history(case, list(log), reason)


def history(case, log, reason):
    h = [[x[0], x[1], 0 if isinstance(x[2], dict) else x[2]] for x in log]
    return {"op": "live", "h": h, "gets": {str(i + 1): x[2] for i, x in enumerate(log) if x[0] == "gr"} or {"0": 0}, "end": reason or "ok", "n": len(case["algos"]), "dfg": [a["k"] == "dfg" for a in case["algos"]]}


def distribute(case):
    from pm4py.streaming.conversion.ocel_flatts_distributor import OcelFlattsDistributor
    par = {"pm4py:param:activity_key": "act", "pm4py:param:case_id_key": "cid", "pm4py:param:timestamp_key": "when"} if case["keys"] else {}
    ak, ck, tk = ("act", "cid", "when") if case["keys"] else ("concept:name", "case:concept:name", "time:timestamp")
    d = OcelFlattsDistributor(parameters=par) if par else OcelFlattsDistributor()
    out = []
    for t in case["lis"]:
        out.append([])
        d.register(t, out[-1])
    for e in case["evs"]:
        ev = {"ocel:eid": "e%d" % e["n"], "ocel:activity": e["a"], "ocel:timestamp": gens.ts(60 * e["n"]), "n": e["n"]}
        for t, os in e["objs"].items():
            ev["ocel:type:" + t] = list(os)
        d.append(ev)
    return {"op": "flat", "lis": case["lis"], "evs": [{"n": e["n"], "a": e["a"], "objs": [[t, o] for t, os in e["objs"].items() for o in os]} for e in case["evs"]],
            "out": [[{"n": x["n"], "a": x[ak], "o": x[ck], "t": gens.secs(x[tk]) // 60, "keys": sorted(k for k in x)} for x in o] for o in out],
            "keys": sorted([ak, ck, tk, "n", "ocel:eid"])}


def nontrivial(case, evs):
    return case["k"] == "live" and sum(1 for p in case["prods"] if p) > 1
