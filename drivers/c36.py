"""C36: streaming readers (XES events and traces, CSV, dataframes) against the content of the source."""
import os, shutil, tempfile
from vf import core, gens
from drivers import c19

MODULE = "TrC36"
RULE = "random logs (all attribute types, nested attributes, lists, odd characters, padding around the parser's chunk size) written to XES and read with the event and the trace stream reader, tables written to CSV, dataframes in any row order iterated as traces; with acceptance conditions, by iteration or into a stream, from the start or after a reset; non-trivial: at least two cases and four events"
CASE_TIMEOUT = 60


def cases(rng, tier):
    n = 600 if tier == "quick" else 5000
    for j in range(n):
        k = ["xev", "xtr", "xev", "xtr", "csv", "df"][j % 6]
        c = {"k": k, "how": rng.choice(["iter", "next", "stream"]), "acc": rng.random() < .4, "reset": rng.choice([None, None, 0, 1, 3]), "seed": rng.randint(0, 10 ** 6)}
        if k in ("xev", "xtr"):
            c["log"] = c19.mklog(rng, rng.choice([0, 2, 2]), False)
            c["meta"] = c19.rmeta(rng, 1)
            c["pad"] = rng.choice([0, 0, 4050, 32000, 32600, 65300]) + rng.randint(0, 120)
            c["exp"] = rng.choice(["lbl", "etree"])
        elif k == "csv":
            cols = rng.sample(["case:concept:name", "concept:name", "x", "k k", "é", "a,b"], rng.randint(1, 4))
            c["cols"] = cols
            c["rows"] = [[rng.choice(["a", "b", "", "x,y", 'q"q', "l1\nl2", "é", " p "]) if len(cols) > 1 else rng.choice("abc") for _ in cols] for _ in range(rng.randint(0, 8))]
            c["fn"] = rng.random() < .4
        else:
            log = gens.rlog(rng, "abc", rng.randint(1, 5), 5, ties=.3)
            for i, x in enumerate(log):
                x["id"] = rng.choice(["c%d", "é%d", "%d"]) % (20 - i)
            c["log"] = log
            c["keys"] = rng.random() < .4
            c["intid"] = rng.random() < .3
            if c["intid"]:
                for i, x in enumerate(log):
                    x["id"] = 20 - 3 * i
            c["order"] = "shuffle" if rng.random() < .5 else "inter"
            c["fmt"] = rng.random() < .3
        yield c


def drain(reader, c, to):
    if c["reset"] is not None:
        it = iter(reader)
        for _ in range(c["reset"]):
            if next(it, None) is None:
                break
        reader.reset()
    if c["how"] == "stream":
        out = []
        getattr(reader, to)(out)
        return out
    if c["how"] == "next":
        out = []
        while True:
            try:
                out.append(next(reader))
            except StopIteration:
                return out
    return list(reader)


def run(c):
    d = tempfile.mkdtemp(prefix="vf36")
    try:
        return {"xev": xes, "xtr": xes, "csv": csvs, "df": df}[c["k"]](c, d)
    finally:
        shutil.rmtree(d)


def xes(c, d):
    from pm4py.objects.log.exporter.xes import exporter as ex
    from pm4py.streaming.importer.xes import importer as im
    L = c19.build(c)
    p = os.path.join(d, "l.xes")
    xv = ex.Variants.LINE_BY_LINE if c["exp"] == "lbl" else ex.Variants.ETREE
    c19.set_pad(L, c, xv)
    ex.apply(L, p, variant=xv)
    key = c19.KEYS[c["seed"] % len(c19.KEYS)]
    par = {}
    if c["k"] == "xev":
        if c["acc"]:
            par["acceptance_condition"] = lambda e: key in e
        out = drain(im.apply(p, variant=im.Variants.XES_EVENT_STREAM, parameters=par), c, "to_event_stream")
        return {"op": "events", "a": c19.canon_log(L, True), "acc": c19.tok(key) if c["acc"] else "", "out": [c19.pairs(e) for e in out]}
    if c["acc"]:
        par["acceptance_condition"] = lambda t: any(key in e for e in t)
    out = drain(im.apply(p, variant=im.Variants.XES_TRACE_STREAM, parameters=par), c, "to_trace_stream")
    return {"op": "traces", "a": c19.canon_log(L, True), "acc": c19.tok(key) if c["acc"] else "", "out": c19.canon_log(out, True)}


def csvs(c, d):
    import csv
    from pm4py.streaming.importer.csv import importer as im
    p = os.path.join(d, "l.csv")
    with open(p, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(c["cols"])
        w.writerows(c["rows"])
    par = {}
    col = c["cols"][0]
    if c["fn"]:
        par["transformation_function"] = lambda e: dict(e, **{col: e[col] + "!"})
    if c["acc"]:
        par["acceptance_condition"] = lambda e: e[col] not in ("a", "a!")
    out = drain(im.apply(p, parameters=par), c, "to_event_stream")
    T = c19.tok
    return {"op": "csv", "cols": [T(x) for x in c["cols"]], "rows": [[T(v + ("!" if c["fn"] and i == 0 else "")) for i, v in enumerate(r)] for r in c["rows"]],
            "acc": c["acc"], "no": [T("a"), T("a!")], "out": [[[T(k), T(v)] for k, v in e.items()] for e in out]}


def df(c, d):
    import random
    import pm4py
    from pm4py.streaming.conversion import from_pandas
    rng = random.Random(c["seed"])
    keys = {"a": "act", "case": "cid", "t": "when"} if c["keys"] else {}
    x = gens.to_df(c["log"], keys, gens.interleaving(rng, c["log"]) if c["order"] == "inter" else None)
    if c["order"] == "shuffle":
        x = x.sample(frac=1, random_state=c["seed"]).reset_index(drop=True)
    ak, ck, tk = ("act", "cid", "when") if c["keys"] else ("concept:name", "case:concept:name", "time:timestamp")
    rows = [[c19.tok(str(r[ck])), r[ak], gens.secs(r[tk])] for r in x.to_dict("records")]
    if c["fmt"] and not c["keys"] and not c["intid"]:
        x = pm4py.format_dataframe(x, case_id=ck, activity_key=ak, timestamp_key=tk)
    par = {"pm4py:param:activity_key": "act", "pm4py:param:case_id_key": "cid", "pm4py:param:timestamp_key": "when"} if c["keys"] else {}
    cols = list(x.columns)
    out = drain(from_pandas.apply(x, parameters=par) if par else from_pandas.apply(x), c, "to_trace_stream")
    return {"op": "df", "rows": rows, "same": list(x.columns) == cols,
            "out": [[c19.tok(str(t.attributes["concept:name"])), [[e["concept:name"], gens.secs(e["time:timestamp"])] for e in t]] for t in out]}


def nontrivial(c, evs):
    if c["k"] == "csv":
        return len(c["rows"]) > 3
    return len(c["log"]) >= 2 and sum(len(t["ev"]) for t in c["log"]) >= 4
