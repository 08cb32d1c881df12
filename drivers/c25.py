"""C25: object-centric logs written to files and read back."""
import os
import shutil
import tempfile
from vf import core, gens, ocels

MODULE = "TrC25"
RULE = "random object-centric logs (several types, qualifiers, links, object changes, attributes missing on some rows, sub-second times, other time zones) through the eight writers and readers; non-trivial: at least two events, an attribute and a relation of an event with two objects"
FMTS = ["csv", "json", "xml", "sqlite", "json2", "xml2", "sqlite2", "nx"]
STR = ["u", "v w", "x<y&z", "\u00e9\u4e2d", "a,b", "it's", 'q"q', "N-1"]


def cases(rng, tier):
    n = 560 if tier == "quick" else 7000
    for j in range(n):
        f = FMTS[j % len(FMTS)]
        O = ocels.rocel(rng, nev=rng.choice([2, 6, 12]), nob=rng.choice([2, 5, 8]), extras=False, quals=f != "csv" and rng.random() < .7,
                        multi=f in ("sqlite", "json2", "xml2", "sqlite2", "json") and rng.random() < .4, maxrel=rng.choice([1, 2, 4]), o20=rng.random() < .8, ties=rng.choice([0, .3, .7]))
        O["e2e"] = []
        used = {r["o"] for r in O["rel"]}
        O["ob"] = [o for o in O["ob"] if o["id"] in used]
        O["o2o"] = [x for x in O["o2o"] if x["o"] in used and x["p"] in used]
        O["oc"] = [x for x in O["oc"] if x["o"] in used]
        if f == "nx":                                  # one edge per pair of nodes
            O["o2o"] = list({(x["o"], x["p"]): x for x in O["o2o"]}.values())
            O["rel"] = list({(x["e"], x["o"]): x for x in O["rel"]}.values())
        ms = rng.random() < .4
        k = 1000
        for x in O["ev"] + O["oc"]:
            x["t"] *= k
        if ms:                                         # sub-second times, order kept
            d = 0
            for x in O["ev"]:
                d += rng.choice([0, 0, 1, 120])
                x["t"] += d
        for x in O["ev"] + O["ob"]:                    # attribute values of one kind per column
            for a in "xy":
                if a in x:
                    x[a] = rng.choice(STR)
            for a in "nm":
                if a in x:
                    x[a] = rng.choice([0.5, 2.25, -1.5, 1e-3, 123456.75])
        k = {"xml": "d", "xml2": "d", "nx": "d", "json": "k", "json2": "k", "sqlite2": "k"}.get(f)
        if k:                                          # times / integers as attribute values
            for x in O["ev"] + O["ob"]:
                if rng.random() < .3:
                    x[k] = "@%d" % rng.randint(0, 10 ** 6) if k == "d" else rng.randint(-3, 10 ** 6)
        num = rng.random() < .5
        for x in O["oc"]:
            if x["f"] == "y":
                x["v"] = rng.choice(STR)
            elif x["f"] == "m":
                x["v"] = rng.choice([0.5, 7.25, -3.5])
            else:
                x["v"] = rng.choice([1.5, 4.75]) if num else rng.choice(STR)
        if rng.random() < .5:                          # unusual names
            ren = dict(zip(ocels.ACTS, rng.sample(["Pay, order", "A/B", "ab", "e\u00f1e", "pay it", "payIt", "x<1>", "object", "\u4e2d", "\u65e5\u672c"], 5)))
            for e in O["ev"]:
                e["a"] = ren[e["a"]]
            ren = dict(zip(ocels.TYPES, rng.sample(["Order Item", "orderitem", "t-1", "caf\u00e9", "caf\u00e8", "o&p", "object", "\u4e2d", "\u65e5"], 4)))
            for o in O["ob"]:
                o["ty"] = ren[o["ty"]]
        yield {"f": f, "w": O, "over": rng.random() < .3, "tz": rng.choice([None, None, 2, -5])}


def run(case):
    import pm4py
    f, O = case["f"], case["w"]
    oc = ocels.build(O, unit="ms", tz=case["tz"])
    is20 = bool(oc.is_ocel20())
    w = dict(ocels.full(O), is20=is20)
    if f == "nx":
        from pm4py.util import nx_utils
        back = nx_utils.nx_to_ocel(pm4py.convert_ocel_to_networkx(oc))
        return {"op": "io", "fmt": f, "w": w, "out": ocels.dump(back, unit="ms")}
    d = tempfile.mkdtemp(prefix="vfc25")
    try:
        p = os.path.join(d, "log." + {"csv": "csv", "json": "jsonocel", "xml": "xmlocel", "sqlite": "sqlite", "json2": "json", "xml2": "xml", "sqlite2": "sqlite"}[f])
        if case.get("over"):                           # the file is already there, with another log
            O2 = dict(O, ev=[dict(e, id=e["id"] + "z") for e in O["ev"]], rel=[dict(r, e=r["e"] + "z") for r in O["rel"]], o2o=[], oc=[])
            first = ocels.build(O2, unit="ms")
            if f == "csv":
                pm4py.write_ocel(first, p, objects_path=os.path.join(d, "objects.csv"))
            else:
                (pm4py.write_ocel if f in ("json", "xml", "sqlite") else pm4py.write_ocel2)(first, p)
        if f == "csv":
            q = os.path.join(d, "objects.csv")
            pm4py.write_ocel(oc, p, objects_path=q)
            back = pm4py.read_ocel(p, objects_path=q)
        elif f in ("json", "xml", "sqlite"):
            pm4py.write_ocel(oc, p)
            back = pm4py.read_ocel(p)
        else:
            pm4py.write_ocel2(oc, p)
            back = pm4py.read_ocel2(p)
        return {"op": "io", "fmt": f, "w": w, "out": ocels.dump(back, unit="ms")}
    finally:
        shutil.rmtree(d)


def nontrivial(case, evs):
    O = case["w"]
    n = {}
    for r in O["rel"]:
        n[r["e"]] = n.get(r["e"], 0) + 1
    return len(O["ev"]) > 1 and any("x" in e or "n" in e for e in O["ev"]) and any(v > 1 for v in n.values())
