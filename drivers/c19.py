"""C19: log conversions, files and formatting."""
import datetime, hashlib, math, os, tempfile
from vf import core, gens

MODULE = "TrC19"
RULE = "random logs (missing attributes, ties, all attribute types, odd characters, nested attributes, lists, custom keys) through random chains of conversions, every XES exporter/importer pair, formatting of raw dataframes and conversion to a graph; non-trivial: at least two cases and four events"
U = datetime.timezone.utc
STR = ["a", "ab", "x y", "a & b", "a<b>c", 'q"q', "it's", "b'\"c", "l1\nl2\tt", "é€ü", " pad ", "a/", "1", "true", "None", "&amp;", ""]
KEYS = ["x", "y:z", "k k", 'k"q', "k&l", "org:resource", "cost", "xcase:y", "é"]


def rval(rng, nested=0):
    k = rng.randrange(9 if nested else 7)
    if k <= 1:
        return rng.choice(STR)
    if k == 2:
        return rng.randint(-5, 2)
    if k == 3:
        return rng.choice([1.0, 0.5, -2.25, 1e-07, 1e20])
    if k == 4:
        return rng.random() < .5
    if k == 5:
        return {"d": rng.randint(0, 10 ** 6) * 1000003 % 10 ** 9, "z": rng.choice([0, 0, 120, -330])}
    if k == 6:
        return {"t": rng.randint(0, 10 ** 6)}
    if k == 7:
        return {"n": rval(rng) , "ch": [[a, rval(rng, nested - 1)] for a in rng.sample(KEYS, rng.randint(1, 2))]}
    return {"l": [[rng.choice(KEYS), rval(rng, nested - 1)] for _ in range(rng.randint(1, 3))]}


def dec(v):
    import pandas as pd
    if isinstance(v, dict):
        if "d" in v:
            return (gens_base() + datetime.timedelta(microseconds=v["d"])).astimezone(datetime.timezone(datetime.timedelta(minutes=v["z"])))
        if "t" in v:
            return pd.Timestamp(gens_base() + datetime.timedelta(seconds=v["t"]))
        if "n" in v:
            return {"value": dec(v["n"]), "children": {a: dec(b) for a, b in v["ch"]}}
        return {"value": None, "children": [(a, dec(b)) for a, b in v["l"]]}
    return v


def gens_base():
    return datetime.datetime(2021, 3, 1, 8, tzinfo=U)


def tok(s):
    if len(s) < 60 and s.isascii() and all(ch.isalnum() or ch in " :_.-+" for ch in s):
        return s
    return "#" + hashlib.sha1(s.encode("utf-8", "surrogatepass")).hexdigest()[:12]


def canon(v, strict=True):
    """a value as a string, or None when it is missing; numbers of equal value are equal unless strict"""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT or v is pd.NA:
        return None
    if isinstance(v, (bool, np.bool_)):
        return "b:%s" % bool(v)
    if isinstance(v, (int, np.integer)):
        return ("i:" if strict else "n:") + str(int(v))
    if isinstance(v, (float, np.floating)):
        if math.isnan(v):
            return None
        return "f:" + repr(float(v)) if strict else "n:" + (str(int(v)) if float(v).is_integer() else repr(float(v)))
    if isinstance(v, datetime.datetime):
        return "d:" + (v.astimezone(U).strftime("%Y-%m-%d %H:%M:%S.%f") if v.tzinfo else "naive " + v.isoformat())
    if isinstance(v, dict):
        ch = v.get("children")
        ch = sorted([tok(a), canon(b, strict)] for a, b in ch.items()) if isinstance(ch, dict) else [[tok(a), canon(b, strict)] for a, b in ch]
        return tok("x:%s" % [canon(v.get("value"), strict), ch])
    if isinstance(v, str):
        return "s:" + tok(v)
    return "?:%s:%s" % (type(v).__name__, tok(str(v)))


def pairs(d, strict=True):
    return sorted([tok(k), canon(v, strict)] for k, v in d.items() if canon(v, strict) is not None)


def canon_log(log, strict=False):
    return [{"at": pairs(t.attributes, strict), "ev": [pairs(e, strict) for e in t]} for t in log]


def split(d, strict=False):
    return {"c": pairs({k[5:]: v for k, v in d.items() if k.startswith("case:")}, strict), "e": pairs({k: v for k, v in d.items() if not k.startswith("case:")}, strict)}


def canon_any(x):
    """(representation, content)"""
    import pandas as pd
    from pm4py.objects.log.obj import EventLog
    if isinstance(x, pd.DataFrame):
        return "df", [split(r) for r in x.to_dict("records")]
    if isinstance(x, EventLog):
        return "log", canon_log(x)
    return "stream", [split(e) for e in x]


def meta(x, strict=True):
    return {"at": pairs(x.attributes, strict), "cl": sorted([tok(k), [tok(z) for z in v]] for k, v in x.classifiers.items()),
            "om": sorted([tok(k), pairs(v, strict)] for k, v in x.omni_present.items()),
            "ex": sorted([tok(k), tok(v["prefix"]), tok(v["uri"])] for k, v in x.extensions.items()),
            "pr": pairs(x.properties, strict)}


def rattrs(rng, nested, n=3):
    return [[k, rval(rng, nested)] for k in rng.sample(KEYS, rng.randint(0, n))]


def mklog(rng, nested, columns):
    """columns: a fixed type per attribute name, as a table has"""
    ty = {k: rng.choice(["s", "i", "f", "b", "t"]) for k in KEYS}
    tz = {k: rng.choice([0, 120]) for k in KEYS}

    def val(k):
        if not columns:
            return rval(rng, nested)
        return {"s": lambda: rng.choice(STR), "i": lambda: rng.randint(-3, 3), "f": lambda: rng.choice([.5, 1.0, -2.25]), "b": lambda: rng.random() < .5,
                "t": lambda: {"d": rng.randint(0, 10 ** 9), "z": tz[k]}}[ty[k]]()
    ck = rng.sample(KEYS, rng.randint(0, 3))
    ek = rng.sample(KEYS, rng.randint(0, 3))
    log, t = [], 0
    for i in range(rng.randint(1, 5)):
        ev = []
        for _ in range(rng.choice([0, 1, 2, 3, 4]) if not columns or rng.random() < .3 else rng.randint(1, 4)):
            t += rng.choice([0, 1, 3600])
            e = [["concept:name", rng.choice(["a", "b", "a & b", "c d"])], ["time:timestamp", {"d": t * 10 ** 6 + rng.choice([0, 0, 500, 250000]), "z": 0}]]
            ev.append(e + [[k, val(k)] for k in ek if rng.random() < .7])
        log.append({"at": [["concept:name", "c%d" % (7 - i) if rng.random() < .9 else "é<%d>" % i]] + [[k, val(k)] for k in ck if rng.random() < .7], "ev": ev})
    return log


def build(c):
    from pm4py.objects.log.obj import EventLog, Trace, Event
    L = EventLog()
    for t in c["log"]:
        tr = Trace(attributes={k: dec(v) for k, v in t["at"]})
        for e in t["ev"]:
            tr.append(Event({k: dec(v) for k, v in e}))
        L.append(tr)
    m = c.get("meta", {})
    L.attributes.update({k: dec(v) for k, v in m.get("at", [])})
    L.classifiers.update({k: v for k, v in m.get("cl", [])})
    L.extensions.update({k: {"prefix": p, "uri": u} for k, p, u in m.get("ex", [])})
    for s, d in m.get("om", []):
        L.omni_present[s] = {k: dec(v) for k, v in d}
    return L


def rmeta(rng, nested):
    m = {"at": rattrs(rng, nested), "cl": [], "ex": [], "om": []}
    for k in rng.sample(["Activity", "A & B", 'q"c'], rng.randint(0, 2)):
        m["cl"].append([k, rng.choice([["concept:name"], ["concept:name", "x"], ["k k", "x"], ["k k"], ["a&b", "é"]])])
    for k in rng.sample(["Concept", "T & I"], rng.randint(0, 2)):
        m["ex"].append([k, rng.choice(["concept", "t&i"]), "http://x/%s.xesext" % rng.choice(["c", "c?a=1&b=2"])])
    for s in rng.sample(["event", "trace"], rng.randint(0, 2)):
        m["om"].append([s, rattrs(rng, 0)])
    return m


EXPS, IMPS = ["lbl", "etree"], ["iterparse", "mem", "i20", "chunk", "line"]


def cases(rng, tier):
    n = 900 if tier == "quick" else 9000
    for j in range(n):
        k = ["chain", "chain", "xes", "xes", "xes", "xesdf", "fmt", "nx", "parse"][j % 9]
        if k == "chain":
            log = mklog(rng, 0, True)
            if not any(t["ev"] for t in log):
                continue
            ch, prev = [], "log"
            for _ in range(rng.randint(1, 5)):
                nxt = rng.choice([x for x in ("log", "stream", "df") if x != prev])
                ch.append([nxt, rng.random() < .5, rng.random() < .4, rng.random() < .5, rng.random() < .3])
                prev = nxt
            c = dict(k=k, log=log, meta=rmeta(rng, 0), chain=ch, order=rng.random() < .5, seed=rng.randint(0, 10 ** 6))
        elif k == "xes":
            imp = IMPS[j // 9 * 3 % 5] if rng.random() < .5 else rng.choice(IMPS)
            nested = {"iterparse": 2, "mem": 2, "i20": 1, "chunk": 0, "line": 0}[imp]
            log = mklog(rng, nested, False)
            if imp == "i20":
                log = strip_lists(log)
            m = rmeta(rng, nested)
            if imp == "i20":
                m["at"] = [[a, v] for a, v in m["at"] if not has_list(v)]
            c = dict(k=k, log=log, meta=m, exp=rng.choice(EXPS), imp=imp, how=rng.choice(["string", "file", "gz", "api", "gzstr", "compress"]), enc="utf-8", pad=rng.choice([0, 0, 0, 4050, 4090, 4100, 32600]) + rng.randint(0, 120))
            if imp != "chunk" and rng.random() < .4 and c["how"] != "api":
                c["opt"] = dict(max=rng.choice([0, 0, 1, 2, 3]), sort=rng.choice([0, 1, 2]), read=rng.sample(KEYS, rng.randint(0, 4)) + ["time:timestamp", "concept:name"] if imp == "line" and rng.random() < .6 else None)
                if c["opt"]["sort"]:
                    # events and cases out of order
                    rng.shuffle(log)
                    for t in log:
                        rng.shuffle(t["ev"])
        elif k == "xesdf":
            log = mklog(rng, 0, True)
            if not any(t["ev"] for t in log):
                continue
            c = dict(k=k, log=log, exp="api", imp=rng.choice([None, "iterparse", "chunk_regex", "line_by_line", "iterparse_mem_compressed", "iterparse_20"]), gz=rng.random() < .3, cid=rng.random() < .3, seed=rng.randint(0, 10 ** 6))
        elif k == "fmt":
            rows = [[rng.choice([10, 9, 2, 1, 33]), rng.choice("abc"), rng.randint(0, 6), rng.randint(0, 5), i] for i in range(rng.randint(1, 9))]
            for r in rows:
                if rng.random() < .15:
                    r[rng.randrange(3)] = None
            if all(None in r[:3] for r in rows):
                continue
            c = dict(k=k, rows=rows, custom=rng.random() < .6, start=rng.random() < .5, strts=rng.random() < .4, intid=rng.random() < .4, clash=rng.random() < .3, how=rng.choice(["df", "df", "rebase_df", "rebase_log", "rebase_stream"]))
        elif k == "nx":
            log = mklog(rng, 0, True)
            if not any(t["ev"] for t in log):
                continue
            c = dict(k=k, log=log, df=rng.random() < .7, ca=rng.sample(KEYS, rng.randint(0, 2)), ea=rng.sample(KEYS + ["concept:name"], rng.randint(0, 2)), rep=rng.choice(["log", "df"]))
        else:
            c = dict(k=k, words=[[rng.choice(["a", "b c", "d", "é"]) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 12))], sep=rng.choice([",", ";", "--"]), legacy=rng.random() < .4)
        yield c


def has_list(v):
    return isinstance(v, dict) and ("l" in v or any(has_list(x) for _, x in v.get("ch", [])))


def strip_lists(log):
    return [{"at": [[a, v] for a, v in t["at"] if not has_list(v)], "ev": [[[a, v] for a, v in e if not has_list(v)] for e in t["ev"]]} for t in log]


def nontrivial(case, evs):
    if case["k"] in ("fmt",):
        return len(case["rows"]) >= 4
    if case["k"] == "parse":
        return len(case["words"]) >= 2
    return len(case["log"]) >= 2 and sum(len(t["ev"]) for t in case["log"]) >= 4


def conv(x, to, api, params):
    import pm4py
    from pm4py.objects.conversion.log import converter
    if api:
        f = {"log": pm4py.convert_to_event_log, "stream": pm4py.convert_to_event_stream, "df": pm4py.convert_to_dataframe}[to]
        return f(x, **params)
    v = {"log": converter.Variants.TO_EVENT_LOG, "stream": converter.Variants.TO_EVENT_STREAM, "df": converter.Variants.TO_DATA_FRAME}[to]
    return converter.apply(x, variant=v, parameters=dict(params))


def set_pad(L, c, xv):
    """a padding attribute in the first case, so that a boundary of the parser's chunks (32 kB) falls into the file; if possible into a nested attribute"""
    import random, re
    from pm4py.objects.log.exporter.xes import exporter as ex
    if not c["pad"] or not len(L):
        return
    rng = random.Random(core.sha(c))
    L[0].attributes["pad"] = ""
    b = ex.serialize(L, variant=xv)
    b = b.encode() if isinstance(b, str) else b
    first = b.find(b'"pad"')
    pos = [m.start() for m in re.finditer(rb"<list|<values|</values|</list|/>\s*</(string|date|int|float|boolean)|<(string|date|int|float|boolean) [^>]*[^/]>", b) if m.start() > first]
    at = rng.choice(pos) + rng.randint(-3, 60) if pos and c["pad"] > 4000 else c["pad"] % 4000
    L[0].attributes["pad"] = "p" * ((-at) % 32768)


def missing(x, rep):
    """number of attributes present with a missing value"""
    evs = [e for t in x for e in t] + [t.attributes for t in x] if rep == "log" else list(x)
    return sum(1 for e in evs for k in e if canon(e[k]) is None)


def run(c):
    return {"chain": run_chain, "xes": run_xes, "xesdf": run_xesdf, "fmt": run_fmt, "nx": run_nx, "parse": run_parse}[c["k"]](c)


def run_chain(c):
    import random
    import pandas as pd
    L = build(c)
    out = []
    rep, cur = canon_any(L)
    x = L
    for nxt, api, post, deep, compress in c["chain"]:
        params = {"stream_postprocessing": post, "deepcopy": deep, "compress": compress}
        if rep == "df" and c["order"]:
            # the rows of different cases in another interleaving (the order inside a case is kept)
            rng = random.Random(c["seed"])
            o = [r["case:concept:name"] for r in x.to_dict("records")]
            idx = {}
            for i, v in enumerate(o):
                idx.setdefault(v, []).append(i)
            rng.shuffle(o)
            x = x.iloc[[idx[v].pop(0) for v in o]].reset_index(drop=True)
            rep, cur = canon_any(x)
        m0 = meta(x) if rep != "df" else {"pr": pairs(x.attrs)}
        y = conv(x, nxt, api, params)
        rep2, new = canon_any(y)
        m1 = meta(y) if rep2 != "df" else {"pr": pairs(y.attrs)}
        out.append({"op": "step", "f": rep, "g": rep2, "want": nxt, "a": cur, "b": new, "samemeta": m0 == m1 if rep != "df" and rep2 != "df" else m0["pr"] == m1["pr"],
                    "nan": missing(y, rep2) if rep == "df" and post else 0})
        # the conversion must not lose anything of what was given either
        x, rep, cur = y, rep2, new
        if not cur:
            break
    return out


def run_xes(c):
    import pm4py
    from pm4py.objects.log.exporter.xes import exporter as ex
    from pm4py.objects.log.importer.xes import importer as im
    L = build(c)
    iv = {"iterparse": im.Variants.ITERPARSE, "mem": im.Variants.ITERPARSE_MEM_COMPRESSED, "i20": im.Variants.ITERPARSE_20, "chunk": im.Variants.CHUNK_REGEX, "line": im.Variants.LINE_BY_LINE}[c["imp"]]
    xv = {"lbl": ex.Variants.LINE_BY_LINE, "etree": ex.Variants.ETREE}[c["exp"]]
    set_pad(L, c, xv)
    if c["exp"] == "etree" and c["imp"] in ("chunk", "line"):
        # self-closing empty elements are not supported by the text-based importers
        for t in L:
            for i in reversed(range(len(t))):
                if not t[i]:
                    t.pop(i) if hasattr(t, "pop") else None
    d = tempfile.mkdtemp(prefix="vf19")
    par = {}
    o = c.get("opt") or {"max": 0, "sort": 0, "read": None}
    if o["max"]:
        par["max_traces"] = o["max"]
    if o["sort"]:
        par.update(timestamp_sort=True, reverse_sort=o["sort"] == 2)
    if o["read"] is not None:
        par["set_attributes_to_read"] = set(o["read"])
    try:
        if c["how"] == "string":
            G = im.deserialize(ex.serialize(L, variant=xv), variant=iv, parameters=par)
        elif c["how"] == "gzstr":
            b = ex.serialize(L, variant=xv, parameters={"compress": True})
            if b[:2] != b"\x1f\x8b":
                raise ValueError("not compressed")
            G = im.deserialize(b, variant=iv, parameters=dict(par, decompress_serialization=True))
        elif c["how"] == "compress":
            p = os.path.join(d, "l.xes")
            ex.apply(L, p, variant=xv, parameters={"compress": True})
            G = im.apply(p + ".gz", variant=iv, parameters=par)
        elif c["how"] == "api" and c["exp"] == "lbl":
            p = os.path.join(d, "l.xes")
            pm4py.write_xes(L, p)
            name = {"iterparse": "iterparse", "mem": "iterparse_mem_compressed", "i20": "iterparse_20", "chunk": "chunk_regex", "line": "line_by_line"}[c["imp"]]
            G = pm4py.read_xes(p, variant=name, return_legacy_log_object=True)
        else:
            p = os.path.join(d, "l.xes.gz" if c["how"] == "gz" else "l.xes")
            ex.apply(L, p, variant=xv)
            G = im.apply(p, variant=iv, parameters=par)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    a, b = meta(L), meta(G)
    a.pop("pr"), b.pop("pr")
    if o["read"] is not None:
        for t in L:
            for x in [t.attributes] + list(t):
                for q in [q for q in list(x.keys()) if q not in o["read"]]:
                    del x[q]
    T = [[round((e["time:timestamp"] - gens_base()).total_seconds() * 2000) for e in t] for t in L]
    return {"op": "xes", "full": c["imp"] != "line", "max": o["max"], "sort": o["sort"], "t": T, "a": canon_log(L, True), "b": canon_log(G, True), "ma": a, "mb": b}


def run_xesdf(c):
    import random
    import pm4py
    L = build(c)
    df = pm4py.convert_to_dataframe(L)
    rng = random.Random(c["seed"])
    o = list(df["case:concept:name"])
    idx = {}
    for i, v in enumerate(o):
        idx.setdefault(v, []).append(i)
    rng.shuffle(o)
    df = df.iloc[[idx[v].pop(0) for v in o]].reset_index(drop=True)
    kw = {}
    if c["cid"]:
        df["cid"] = df["case:concept:name"]
        del df["case:concept:name"]
        kw["case_id_key"] = "cid"
    d = tempfile.mkdtemp(prefix="vf19")
    try:
        p = os.path.join(d, "l.xes.gz" if c["gz"] else "l.xes")
        a = [split(r) for r in df.to_dict("records")]
        pm4py.write_xes(df, p, **kw)
        G = pm4py.read_xes(p, variant=c["imp"]) if c["imp"] else pm4py.read_xes(p)
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return {"op": "xesdf", "key": "cid" if c["cid"] else "", "a": a, "b": canon_any(G)[1]}


def run_fmt(c):
    import pandas as pd
    import pm4py
    ck, ak, tk = ("C", "A", "T") if c["custom"] else ("case:concept:name", "concept:name", "time:timestamp")
    T = lambda t: None if t is None else (gens.ts(t).isoformat() if c["strts"] else pd.Timestamp(gens.ts(t)))
    R = []
    for cid, a, t, s, i in c["rows"]:
        r = {ck: None if cid is None else (cid if c["intid"] else "k%d" % cid), ak: a, tk: T(t), "id": i}
        if c["start"]:
            r["S" if c["custom"] else "start_timestamp"] = T(s)
        if c["custom"] and c["clash"]:
            r["concept:name"] = "other"
        R.append(r)
    df = pd.DataFrame(R)
    if not c["strts"]:
        df[tk] = pd.to_datetime(df[tk], utc=True)
    kw = {"start_timestamp_key": "S"} if c["start"] and c["custom"] else {}
    h = c["how"]
    if h == "df":
        out = pm4py.format_dataframe(df, case_id=ck, activity_key=ak, timestamp_key=tk, **kw)
    else:
        # rebasing an object that is already a valid log (no missing values)
        df = df.dropna(subset=[ck, ak, tk])
        df = pm4py.format_dataframe(df.copy(), case_id=ck, activity_key=ak, timestamp_key=tk)
        df = df.sort_values("id")
        if h == "rebase_log":
            df = pm4py.convert_to_event_log(df)
        elif h == "rebase_stream":
            df = pm4py.convert_to_event_stream(df)
        out = pm4py.rebase(df, **({"activity_key": ak} if c["custom"] else {}), **kw)
        if h != "rebase_df":
            out = pm4py.convert_to_dataframe(out)
    def cell(v):
        return -1 if v is None or v != v or v is pd.NaT else int(v)
    rows = [{"c": str(r["case:concept:name"]), "a": r["concept:name"], "t": gens.secs(r["time:timestamp"]), "id": int(r["id"]), "s": gens.secs(r["start_timestamp"]) if c["start"] else -1,
             "ix": cell(r.get("@@index", -1)), "cx": cell(r.get("@@case_index", -1))} for r in out.to_dict("records")]
    src = [{"c": "" if r[0] is None else str(df_id(c, r[0], c["rows"])), "a": r[1] or "", "t": -1 if r[2] is None else r[2], "s": r[3] if c["start"] else -1, "id": r[4]} for r in c["rows"]]
    return {"op": "fmt", "src": src, "out": rows, "sorted": sorted({s["c"] for s in src if s["c"]}), "props": h == "df" and all(out.attrs.get(k) == v for k, v in [("pm4py:param:activity_key", "concept:name"), ("pm4py:param:timestamp_key", "time:timestamp"), ("pm4py:param:case_id_key", "case:concept:name")]) or h != "df"}


def df_id(c, v, rows):
    """how pandas renders the case identifier (integers with a missing value become floats)"""
    if not c["intid"]:
        return "k%d" % v
    return str(float(v)) if any(r[0] is None for r in rows) else str(v)


def run_nx(c):
    import pm4py
    L = build(c)
    x = L if c["rep"] == "log" else pm4py.convert_to_dataframe(L)
    a = canon_log(pm4py.convert_to_event_log(x) if c["rep"] == "df" else L)
    ids = [t.attributes["concept:name"] for t in L if len(t) or c["rep"] == "log"]
    g = pm4py.convert_log_to_networkx(x, include_df=c["df"], other_case_attributes_as_nodes=c["ca"], event_attributes_as_nodes=c["ea"])
    name = {"CASE=" + i: ["c", n + 1, 0] for n, i in enumerate(ids)}
    for n, i in enumerate(ids):
        for m in range(50):
            name["EVENT=%s_%d" % (i, m)] = ["e", n + 1, m + 1]
    nid = lambda v: name[v] if isinstance(v, str) and v in name else ["v", canon(v, False), 0]
    nodes = [[nid(v), pairs({k: z for k, z in d["attr"].items() if k != "type"}, False), d["attr"]["type"]] for v, d in g.nodes(data=True)]
    edges = [[nid(u), nid(v), d["attr"]["type"], tok(d["attr"].get("name", ""))] for u, v, d in g.edges(data=True)]
    # a node is identified by its value: False and 0 (True and 1) are the same node
    from pm4py.util import nx_utils
    back = canon_log(nx_utils.nx_to_event_log(g)) if all("time:timestamp" in e for t in L for e in t) else None
    eq = lambda v: {"b:False": "n:0", "b:True": "n:1"}.get(v, v) if isinstance(v, str) else [eq(z) for z in v] if isinstance(v, list) else {q: eq(z) for q, z in v.items()} if isinstance(v, dict) else v
    a, nodes, edges = eq(a), eq(nodes), eq(edges)
    return {"op": "nx", "a": a, "ca": [tok(z) for z in c["ca"]], "ea": [tok(z) for z in c["ea"]], "df": c["df"], "nodes": nodes, "edges": edges, "hasback": back is not None, "back": eq(back) if back is not None else []}


def run_parse(c):
    import pm4py
    r = pm4py.parse_event_log_string([c["sep"].join(w) for w in c["words"]], sep=c["sep"], return_legacy_log_object=c["legacy"])
    if c["legacy"]:
        r = pm4py.convert_to_dataframe(r)
    rows = [[int(x["case:concept:name"]), tok(x["concept:name"])] for x in r.to_dict("records")]
    ts = list(r["time:timestamp"])
    return {"op": "parse", "w": [[tok(a) for a in w] for w in c["words"]], "out": rows, "inc": all(a < b for a, b in zip(ts, ts[1:]))}
