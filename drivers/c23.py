"""C23: object-centric filters."""
from datetime import timezone
from vf import core, gens, ocels

MODULE = "TrC23"
RULE = "random object-centric logs (several interaction components, events without objects, objects without events, simultaneous events, several qualifiers for a pair, links, object changes) through every OCEL filter with random arguments, both polarities and several levels; non-trivial: something is kept and something is not"
KINDS = ["ev_attr", "ob_attr", "events", "objects", "types", "allowed", "count", "start", "end", "time", "cc_object", "cc_length", "cc_otype", "cc_activity"]


def cases(rng, tier):
    n = 900 if tier == "quick" else 12000
    for j in range(n):
        f = KINDS[j % len(KINDS)]
        big = rng.random() < .4
        O = ocels.rocel(rng, nev=14 if big else 7, nob=10 if big else 6, quals=rng.random() < .5, multi=f != "count" and rng.random() < .4, maxrel=rng.choice([1, 2, 2, 4]))
        if f == "allowed" and rng.random() < .5:         # names that read the same when written one after the other
            A = dict(zip(ocels.ACTS, ["a", "ab", "abb", "a", "ab"]))
            T = dict(zip(ocels.TYPES, ["border", "order", "bborder", "order"]))
            for e in O["ev"]:
                e["a"] = A[e["a"]]
            for o in O["ob"]:
                o["ty"] = T[o["ty"]]
        types = sorted({o["ty"] for o in O["ob"]}) + ["zz"]
        acts = sorted({e["a"] for e in O["ev"]}) + ["zz"]
        c = {"f": f, "w": O, "pos": True, "key": "", "vals": [], "level": 1, "lo": 0, "hi": 0}
        some = lambda xs, m: rng.sample(xs, rng.randint(0 if rng.random() < .1 else 1, min(m, len(xs))))
        if f in ("ev_attr", "ob_attr", "events", "objects", "types", "cc_otype"):
            c["pos"] = rng.random() < .6
        if f == "ev_attr":
            c["key"] = rng.choice(["activity", "activity", "x", "id"])
            c["vals"] = some({"activity": acts, "x": ["k", "l", "zz"], "id": [e["id"] for e in O["ev"]]}[c["key"]], 3)
        elif f == "ob_attr":
            c["key"] = rng.choice(["type", "type", "y", "id"])
            c["vals"] = some({"type": types, "y": ["u", "v", "w"], "id": [o["id"] for o in O["ob"]]}[c["key"]], 3)
        elif f == "events":
            c["vals"] = some([e["id"] for e in O["ev"]] + ["zz"], 5)
        elif f == "objects":
            c["level"] = rng.choice([1, 1, 2, 3])
            c["vals"] = some([o["id"] for o in O["ob"]], 3)
        elif f == "types":
            c["level"] = rng.choice([1, 1, 2, 3])
            c["vals"] = some(types, 2)
        elif f == "allowed":
            c["vals"] = [[t, some(acts, 3)] for t in some(types, 3)]
        elif f == "count":
            c["vals"] = [[t, rng.randint(1, 3)] for t in rng.sample(types, rng.randint(1, 2))]
        elif f in ("start", "end", "cc_otype"):
            c["vals"] = [rng.choice(types)]
        elif f == "time":
            T = [e["t"] for e in O["ev"]]
            a, b = sorted([rng.choice(T) + rng.choice([0, 0, -1, 1]), rng.choice(T) + rng.choice([0, 0, -1, 1])])
            c.update(lo=a, hi=b, how=rng.choice(["str", "dt"]))
        elif f == "cc_object":
            c["vals"] = [rng.choice(O["ob"])["id"]]
        elif f == "cc_length":
            a = rng.randint(1, 3)
            c.update(lo=a, hi=a + rng.choice([0, 1, 2, 9]))
        elif f == "cc_activity":
            c["vals"] = [rng.choice(acts)]
        yield c


def call(oc, c):
    import pm4py
    f, v, pos = c["f"], c["vals"], c["pos"]
    if f == "ev_attr":
        return pm4py.filter_ocel_event_attribute(oc, {"activity": "ocel:activity", "x": "x", "id": "ocel:eid"}[c["key"]], v, positive=pos)
    if f == "ob_attr":
        return pm4py.filter_ocel_object_attribute(oc, {"type": "ocel:type", "y": "y", "id": "ocel:oid"}[c["key"]], v, positive=pos)
    if f == "events":
        return pm4py.filter_ocel_events(oc, v, positive=pos)
    if f == "objects":
        return pm4py.filter_ocel_objects(oc, v, positive=pos, level=c["level"])
    if f == "types":
        return pm4py.filter_ocel_object_types(oc, v, positive=pos, level=c["level"])
    if f == "allowed":
        return pm4py.filter_ocel_object_types_allowed_activities(oc, {t: a for t, a in v})
    if f == "count":
        return pm4py.filter_ocel_object_per_type_count(oc, {t: k for t, k in v})
    if f == "start":
        return pm4py.filter_ocel_start_events_per_object_type(oc, v[0])
    if f == "end":
        return pm4py.filter_ocel_end_events_per_object_type(oc, v[0])
    if f == "time":
        d = [gens.ts(c["lo"]), gens.ts(c["hi"])]
        if c["how"] == "str":
            d = [x.strftime("%Y-%m-%d %H:%M:%S") for x in d]
        return pm4py.filter_ocel_events_timestamp(oc, d[0], d[1])
    if f == "cc_object":
        return pm4py.filter_ocel_cc_object(oc, v[0])
    if f == "cc_length":
        return pm4py.filter_ocel_cc_length(oc, c["lo"], c["hi"])
    if f == "cc_otype":
        return pm4py.filter_ocel_cc_otype(oc, v[0], positive=pos)
    if f == "cc_activity":
        return pm4py.filter_ocel_cc_activity(oc, v[0])
    raise core.MachineryError(f)


def run(c):
    import pandas as pd
    for t, col, v in (("ev", "x", "k"), ("ob", "y", "u")):     # the attribute columns exist
        if not any(col in r for r in c["w"][t]):
            c["w"][t][0][col] = v
    oc = ocels.build(c["w"])
    w = ocels.full(c["w"])
    out, x = core.attempt(call, oc, c)
    if x:
        return {"op": "exc", "exc": x, "case": c["f"]}
    return dict(op="filter", f=c["f"], w=w, out=ocels.dump(out), after=ocels.dump(oc), pos=c["pos"], key=c["key"], vals=c["vals"], level=c["level"], lo=c["lo"], hi=c["hi"])


def nontrivial(c, evs):
    return bool(evs) and evs[0]["op"] == "filter" and 0 < len(evs[0]["out"]["rel"]) < len(c["w"]["rel"])
