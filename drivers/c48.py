"""C48: lifecycle and interval logs."""
from vf import gens
from drivers.c15 import slots

MODULE = "TrC48"
RULE = "random lifecycle logs (starts and completions of overlapping instances, repeated and unfinished starts, completions without start, other transitions, upper-case and missing transitions, ties, empty cases) and interval logs (overlapping, touching, nested, zero-length) through to_interval, to_lifecycle and assign_lead_cycle_time, with default and custom attribute names and business-hour slots; non-trivial: some interval has a positive length"
MC = [dict(module="MCLifecycle", env={"N": "3"})]
KEYS = ["concept:name", "time:timestamp", "start_timestamp", "lifecycle:transition", "concept:instance"]
OWN = ["act", "when", "begin", "trn", "inst"]


def cases(rng, tier):
    for i in range(500 if tier == "quick" else 5000):
        k = rng.choice(["iv", "iv", "lc", "lead", "lead", "leadlc", "back"])
        bh = rng.random() < .5
        step = rng.choice([1, 5, 60]) if not bh else rng.choice([900, 7200, 50000])
        acts = ["a", "b", "c"][:rng.randint(1, 3)]
        log, n = [], 0
        for c in range(rng.randint(1, 4)):
            ev, t = [], rng.randint(0, 3 * step)
            for _ in range(6 if i % 5 == 0 or (c == 0 and k == "lead") else rng.choice([0, 1, 3, 6, 9])):
                n += 1
                t += step * rng.choice([0, 0, 1, 1, 2, 3])
                e = {"i": n, "a": rng.choice(acts), "t": t, "inst": rng.choice(["", "", "1", "2"]), "tr": ""}
                if k in ("iv", "leadlc", "back"):
                    e["tr"] = rng.choice(["start"] * 5 + ["complete"] * 5 + ["START", "Complete", "COMPLETE", "schedule", ""])
                else:
                    e["s"] = t
                    e["t"] = t + step * rng.choice([0, 0, 1, 1, 2, 5])
                ev.append(e)
            log.append(ev)
        yield {"k": k, "log": log, "bh": slots(rng) if bh else [], "own": rng.random() < .3, "use": rng.random() < .8}


def run(case):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    from pm4py.objects.log.util import interval_lifecycle as il
    K = OWN if case["own"] else KEYS
    ka, kt, ks, ktr, ki = K
    P = il.Parameters
    par = {}
    if case["own"]:
        par = {P.ACTIVITY_KEY: ka, P.TIMESTAMP_KEY: kt, P.START_TIMESTAMP_KEY: ks, P.TRANSITION_KEY: ktr, P.LIFECYCLE_INSTANCE_KEY: ki}
    k = case["k"]
    lead = k in ("lead", "leadlc")
    if case["bh"]:
        par[P.BUSINESS_HOURS] = True
        par[P.BUSINESS_HOUR_SLOTS] = [tuple(s) for s in case["bh"]]
    elif lead:
        par[P.BUSINESS_HOUR_SLOTS] = [(0, 7 * 86400)]
    log = EventLog()
    for j, c in enumerate(case["log"]):
        tr = Trace()
        tr.attributes["id"] = j + 1
        for e in c:
            d = {ka: e["a"], kt: gens.ts(e["t"]), "eid": e["i"]}
            if e["inst"]:
                d[ki] = e["inst"]
            if e["tr"]:
                d[ktr] = e["tr"]
            if "s" in e:
                d[ks] = gens.ts(e["s"])
            tr.append(Event(d))
        log.append(tr)
    snap = [[dict(e) for e in t] for t in log]
    sec = gens.secs
    I = lambda y: int(round(y)) if abs(y - round(y)) < 1e-5 else 1 / 0
    base = {"ev": case["log"], "bh": case["bh"]}
    chk = lambda new: [t.attributes["id"] for t in new] == list(range(1, len(log) + 1))

    def intervals(new):
        out = []
        for t in new:
            out.append([{"i": e["eid"], "b": e.get("@@startevent_eid", 0), "a": e[ka], "ba": e.get("@@startevent_" + ka, ""), "inst": e.get(ki, ""),
                         "s": sec(e[ks]), "t": sec(e[kt]), "d": I(e["@@duration"]), "w": I(e.get("@@approx_bh_duration", -1)), "no": ktr not in e} for e in t])
        return out

    def halves(new):
        return [[{"i": e["eid"], "a": e[ka], "inst": e.get(ki, ""), "t": sec(e[kt]), "tr": e[ktr], "no": ks not in e} for e in t] for t in new]
    out = []
    if k in ("iv", "back"):
        new = il.to_interval(log, parameters=par)
        if any(case["log"]) and new is not log:
            assert new.attributes["PM4PY_TYPE"] == "interval"
            assert new.properties["pm4py:param:start_timestamp_key"] == ks, "the log declares another start timestamp attribute than its events have"
        out.append(dict(base, op="iv", got=intervals(new), keep=chk(new) and [[dict(e) for e in t] for t in log] == snap))
        if k == "back":
            again = il.to_interval(new, parameters=par)
            lc = il.to_lifecycle(new, parameters=par)
            iv = [[{"i": e["eid"], "a": e[ka], "inst": e.get(ki, ""), "s": sec(e[ks]), "t": sec(e[kt])} for e in t] for t in new]
            out.append({"op": "lc", "bh": [], "ev": iv, "got": halves(lc), "keep": again is new and il.to_lifecycle(lc, parameters=par) is lc and chk(lc)})
    elif k == "lc":
        new = il.to_lifecycle(log, parameters=par)
        assert new.attributes["PM4PY_TYPE"] == "lifecycle"
        out.append(dict(base, op="lc", got=halves(new), keep=chk(new) and [[dict(e) for e in t] for t in log] == snap))
    else:
        new = il.assign_lead_cycle_time(log, parameters=par)
        got = [[{"s": sec(e[ks]), "t": sec(e[kt]), "cycle": I(e["@@approx_bh_partial_cycle_time"]), "lead": I(e["@@approx_bh_partial_lead_time"]),
                 "waste": I(e["@@approx_bh_overall_wasted_time"]), "this": I(e["@@approx_bh_this_wasted_time"]),
                 "ratio": abs(e["@approx_bh_ratio_cycle_lead_time"] - (e["@@approx_bh_partial_cycle_time"] / e["@@approx_bh_partial_lead_time"] if e["@@approx_bh_partial_lead_time"] > 0 else 1)) < 1e-9}
                for e in t] for t in new]
        out.append(dict(base, op=k, got=got, keep=chk(new)))
    return out


def nontrivial(case, evs):
    return any(y["t"] > y["s"] for e in evs for c in e.get("got", []) for y in c if "s" in y) or any(e["op"] == "lc" for e in evs)
