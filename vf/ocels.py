"""Object-centric event logs: random generation, construction, and the dump of every table."""
from datetime import timedelta, timezone
import pandas as pd
from vf import gens

ACTS = ["pay", "place order", "pick", "a", "b"]
TYPES = ["order", "item", "or", "p q"]


def rocel(rng, nev=8, nob=6, ntypes=3, nacts=4, ties=.3, quals=False, multi=False, extras=True, unrelated=.1, attrs=True, maxrel=3, o20=True):
    """Random object-centric log; tables in time order (events, relations) as the importers deliver them."""
    types = rng.sample(TYPES, rng.randint(1, ntypes))
    acts = rng.sample(ACTS, rng.randint(1, nacts))
    ob, ids = [], []
    pool = ["o%d" % i for i in range(1, 30)]
    rng.shuffle(pool)
    for i in range(rng.randint(1, nob)):
        o = {"id": pool[i], "ty": rng.choice(types)}
        if attrs and rng.random() < .7:
            o["y"] = rng.choice(["u", "v", "w"])
        if attrs and rng.random() < .5:
            o["m"] = rng.randint(0, 4)
        ob.append(o)
        ids.append(o["id"])
    epool = ["e%d" % i for i in range(1, 60)]
    rng.shuffle(epool)
    ev, rel, t = [], [], 0
    active = ids if not extras or rng.random() < .6 else ids[:max(1, len(ids) - 1)]
    groups = None
    if len(active) > 2 and rng.random() < .6:         # several connected components
        k = rng.randint(2, 3)
        groups = [[o for j, o in enumerate(active) if j % k == g] for g in range(k)]
        groups = [g for g in groups if g]
    for i in range(rng.randint(1, nev)):
        if i and rng.random() >= ties:
            t += rng.choice([1, 5, 60, 3600, 90000])
        e = {"id": epool[i], "a": rng.choice(acts), "t": t}
        if attrs and rng.random() < .6:
            e["x"] = rng.choice(["k", "l"])
        if attrs and rng.random() < .5:
            e["n"] = rng.randint(0, 5)
        ev.append(e)
        src = rng.choice(groups) if groups else active
        if extras and rng.random() < unrelated:
            continue
        for o in rng.sample(src, min(len(src), rng.randint(1, maxrel))):
            rel.append({"e": e["id"], "o": o, "q": rng.choice(["", "r1", "r2"]) if quals else ""})
            if multi and rng.random() < .15:
                rel.append({"e": e["id"], "o": o, "q": "r3"})
    if not rel:
        rel.append({"e": ev[0]["id"], "o": ids[0], "q": "r1" if quals else ""})
        rel.sort(key=lambda r: [x["id"] for x in ev].index(r["e"]))
    O = {"ev": ev, "ob": ob, "rel": rel, "o2o": [], "e2e": [], "oc": []}
    if o20 and rng.random() < .6:
        seen = set()
        for _ in range(rng.randint(0, 4)):
            x = (rng.choice(ids), rng.choice(ids), rng.choice(["", "part", "of"]))
            if x not in seen:
                seen.add(x)
                O["o2o"].append({"o": x[0], "p": x[1], "q": x[2]})
        eids = [e["id"] for e in ev]
        for _ in range(rng.randint(0, 3)):
            O["e2e"].append({"e": rng.choice(eids), "f": rng.choice(eids), "q": rng.choice(["", "nx"])})
        tt = 0
        for _ in range(rng.randint(0, 5)):
            tt += rng.choice([1, 60, 4000])
            o = rng.choice(ob)
            f = rng.choice(["y", "m", "z"])
            O["oc"].append({"o": o["id"], "t": tt, "f": f, "v": rng.randint(0, 9) if f == "m" else rng.choice(["u", "v", "q"])})
    return O


def _q(q):
    return q if q else None


def _in(v):
    """attribute values of a case: "@seconds" stands for a time"""
    return gens.ts(int(v[1:])) if isinstance(v, str) and v.startswith("@") and v[1:].isdigit() else v


def stamp(t, unit="s", tz=None):
    d = gens.ts(t) if unit == "s" else gens.ts(0) + timedelta(milliseconds=t)
    return d if not tz else d.astimezone(timezone(timedelta(hours=tz)))


def build(O, unit="s", tz=None):
    """The OCEL object of a case (times in seconds or milliseconds, written in a time zone)."""
    T = lambda t: stamp(t, unit, tz)
    from pm4py.objects.ocel.obj import OCEL
    eo = {e["id"]: e for e in O["ev"]}
    oo = {o["id"]: o for o in O["ob"]}
    ev = pd.DataFrame([dict({"ocel:eid": e["id"], "ocel:activity": e["a"], "ocel:timestamp": T(e["t"])}, **{k: _in(e[k]) for k in "xndk" if k in e}) for e in O["ev"]])
    ob = pd.DataFrame([dict({"ocel:oid": o["id"], "ocel:type": o["ty"]}, **{k: _in(o[k]) for k in "ymdk" if k in o}) for o in O["ob"]])
    rl = pd.DataFrame([{"ocel:eid": r["e"], "ocel:activity": eo[r["e"]]["a"], "ocel:timestamp": T(eo[r["e"]]["t"]), "ocel:oid": r["o"], "ocel:type": oo[r["o"]]["ty"], "ocel:qualifier": _q(r["q"])} for r in O["rel"]])
    kw = {}
    if O["o2o"]:
        kw["o2o"] = pd.DataFrame([{"ocel:oid": r["o"], "ocel:oid_2": r["p"], "ocel:qualifier": _q(r["q"])} for r in O["o2o"]])
    if O["e2e"]:
        kw["e2e"] = pd.DataFrame([{"ocel:eid": r["e"], "ocel:eid_2": r["f"], "ocel:qualifier": _q(r["q"])} for r in O["e2e"]])
    if O["oc"]:
        kw["object_changes"] = pd.DataFrame([{"ocel:oid": r["o"], "ocel:type": oo[r["o"]]["ty"], "ocel:timestamp": T(r["t"]), "ocel:field": r["f"], r["f"]: r["v"]} for r in O["oc"]])
    return OCEL(ev, ob, rl, **kw)


def val(v):
    """Canonical attribute value: '' when missing."""
    if v is None or (isinstance(v, float) and v != v) or v is pd.NaT or v is pd.NA:
        return ""
    if isinstance(v, pd.Timestamp):
        return "@%d" % gens.secs(v)
    if hasattr(v, "item"):
        v = v.item()
    if isinstance(v, bool):
        return "b:%s" % v
    if isinstance(v, (int, float)):
        return "n:%s" % (int(v) if float(v) == int(v) else repr(float(v)))
    return str(v)


def _ms(v):
    return round((pd.Timestamp(v) - pd.Timestamp(gens.ts(0))).total_seconds() * 1000)


def table(df, cols, extra=True, unit="s"):
    """Rows of a table: the named columns (short names) and the other columns under 'at' (missing ones left out)."""
    rows = []
    if df is None or len(df) == 0:
        return rows
    others = [c for c in df.columns if c not in cols]
    for d in df.to_dict("records"):
        r = {}
        for c, s in cols.items():
            v = d.get(c)
            r[s] = (gens.secs(v) if unit == "s" else _ms(v)) if s == "t" else val(v)
        if extra:
            r["at"] = sorted([c, val(d[c])] for c in others if val(d[c]) != "")
        rows.append(r)
    return rows


def dump(oc, unit="s"):
    """Every table of an OCEL object, rows in table order."""
    return {"ev": table(oc.events, {"ocel:eid": "id", "ocel:activity": "a", "ocel:timestamp": "t"}, unit=unit),
            "ob": table(oc.objects, {"ocel:oid": "id", "ocel:type": "ty"}),
            "rel": table(oc.relations, {"ocel:eid": "e", "ocel:activity": "a", "ocel:timestamp": "t", "ocel:oid": "o", "ocel:type": "ty", "ocel:qualifier": "q"}, unit=unit),
            "o2o": table(oc.o2o, {"ocel:oid": "o", "ocel:oid_2": "p", "ocel:qualifier": "q"}),
            "e2e": table(oc.e2e, {"ocel:eid": "e", "ocel:eid_2": "f", "ocel:qualifier": "q"}),
            "oc": table(oc.object_changes, {"ocel:oid": "o", "ocel:type": "ty", "ocel:timestamp": "t", "ocel:field": "f"}, unit=unit)}


def full(O):
    """What dump(build(O)) is by construction (the specification's view of the case)."""
    eo = {e["id"]: e for e in O["ev"]}
    oo = {o["id"]: o for o in O["ob"]}
    at = lambda d, ks: sorted([k, val(d[k])] for k in ks if k in d)
    return {"ev": [{"id": e["id"], "a": e["a"], "t": e["t"], "at": at(e, "xndk")} for e in O["ev"]],
            "ob": [{"id": o["id"], "ty": o["ty"], "at": at(o, "ymdk")} for o in O["ob"]],
            "rel": [{"e": r["e"], "a": eo[r["e"]]["a"], "t": eo[r["e"]]["t"], "o": r["o"], "ty": oo[r["o"]]["ty"], "q": r["q"], "at": []} for r in O["rel"]],
            "o2o": [dict(r, at=[]) for r in O["o2o"]],
            "e2e": [dict(r, at=[]) for r in O["e2e"]],
            "oc": [{"o": r["o"], "ty": oo[r["o"]]["ty"], "t": r["t"], "f": r["f"], "at": [[r["f"], val(r["v"])]]} for r in O["oc"]]}
