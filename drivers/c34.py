"""C34: sampling, splitting, sorting, projecting and formatting logs."""
import random as R
from vf import core, gens, ocels

MODULE = "TrC34"
RULE = "random logs (ties, shared words, empty traces, interleaved dataframe rows, arbitrary row labels, custom column names) and random object-centric logs through every sampling/splitting/sorting/projection function with sizes from 0 to beyond the log and random seeds; non-trivial: a proper, non-empty part is returned (or the rearrangement changes the order)"
STD = {"a": "concept:name", "t": "time:timestamp", "r": "org:resource", "v": "val", "case": "case:concept:name", "ca": "case:cattr", "i": "eid"}
CUS = {"a": "act", "t": "when", "r": "who", "v": "val", "case": "nr", "ca": "case:cattr", "i": "eid"}
NOV = -999999
KINDS = ["cases", "cases", "events", "events", "split", "split", "prefix", "prefix", "fun", "sort", "sort_time", "project", "project", "parse", "ser", "format", "format", "rebase", "classifier",
         "artificial", "variants", "partition", "oc_events", "oc_objects", "oc_cc"]


def cases(rng, tier):
    n = 1250 if tier == "quick" else 15000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        c = {"k": k, "seed": rng.randint(0, 10**6), "n": rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12, 40]), "form": rng.choice(["log", "df"]), "custom": False}
        if k.startswith("oc_"):
            c["w"] = ocels.rocel(rng, nev=10, nob=8, quals=rng.random() < .5, multi=rng.random() < .3)
            c["n"] = rng.choice([1, 1, 2, 3, 5, 30])
            yield c
            continue
        l = gens.rlog(rng, ["a", "b", "c d", "e"][:rng.randint(1, 4)], rng.choice([1, 2, 4, 7, 13]), rng.choice([2, 4, 7]), ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 5, 3600]), resources=("R1", "R2", "R3")[:rng.randint(1, 3)])
        ids = rng.sample(range(1, 99), len(l))
        i = 0
        for x, y in zip(l, ids):
            x["id"] = "c%d" % y
            for e in x["ev"]:
                e["i"] = i
                i += 1
        c["log"] = l
        c["order"] = gens.interleaving(rng, l)
        c["labels"] = rng.random() < .4
        if k in ("split",):
            c["p"] = rng.randint(0, 8)
        if k == "events":
            c["form"] = rng.choice(["log", "df", "stream", "stream"])
        if k in ("fun", "sort_time"):
            c["form"] = rng.choice(["log", "log", "stream"])
        if k == "sort":
            c["form"] = rng.choice(["log", "trace", "trace", "stream", "u_log", "u_stream"])
        if k == "fun":
            c["form"] = rng.choice(["log", "trace", "stream"])
        if k in ("sort", "sort_time"):
            c["reverse"] = rng.random() < .4
            c["key"] = rng.choice(["t", "v"])
            if k == "sort_time" or rng.random() < .5:
                for x in l:
                    rng.shuffle(x["ev"])
        if k in ("cases", "prefix", "project", "split", "format", "variants", "artificial"):
            c["custom"] = rng.random() < .4
        if k in ("variants", "partition", "parse", "format"):
            c["form"] = "df"
        if c["form"] == "log" and k in ("cases", "split", "prefix", "project", "fun", "events", "sort") and rng.random() < .25:
            l[rng.randrange(len(l))]["ev"] = []
            c["order"] = gens.interleaving(rng, l)
        if k == "project":
            c["att"] = rng.choice("arv")
        if k == "parse":
            c["sep"] = rng.choice([",", ";", "|", "->"])
            c["form"] = rng.choice(["df", "log"])
        if k == "ser":
            c["form"] = rng.choice(["log", "df", "tree", "net", "dfg", "bpmn"])
            c["tree"] = gens.rtree(rng, ["a", "b", "c", "d"], rng.randint(2, 7))
        if k == "format":
            c["nulls"] = [rng.choice(["case", "a", "t", "r"]) if rng.random() < .2 else "" for _ in c["order"]] if rng.random() < .5 else []
            c["strtime"] = rng.random() < .4
            c["numcase"] = rng.random() < .3
            c["stale"] = rng.random() < .5
        if k == "rebase":
            c["as"] = rng.choice([["r", "a"], ["a", "r"], ["ca", "a"], ["r", "r"]])
            c["form"] = rng.choice(["log", "df", "stream"])
        if k == "classifier":
            c["keys"] = rng.choice([["a"], ["a", "r"], ["r", "a"], ["r"]])
            c["how"] = rng.choice(["list", "name", "str"])
        yield c


def keys(c):
    return CUS if c.get("custom") else STD


def tr_keys(K):
    return dict(K, case=K["case"].replace("case:", ""), ca="cattr")


def val(x):
    if x is None or x != x:
        return NOV
    x = x.item() if hasattr(x, "item") else x
    return int(x)


def ev(e, K):
    t = e.get(K["t"])
    t = None if t is None or t != t else round((__import__("pandas").Timestamp(t) - __import__("pandas").Timestamp(gens.ts(0))).total_seconds() * 1000)
    s = lambda x: "" if x is None or x != x else str(x)
    return {"a": s(e.get(K["a"])), "t": NOV if t is None else t, "r": s(e.get(K["r"])), "v": val(e.get(K["v"])), "i": val(e.get(K["i"]))}


def tr(x, K):
    k = tr_keys(K)
    return {"id": str(x.attributes.get(k["case"], "")), "ca": str(x.attributes.get("cattr", "")), "ev": [ev(e, K) for e in x]}


def lg(x, K):
    return [tr(y, K) for y in x]


def rw(d, K):
    return dict(ev(d, K), c=str(d.get(K["case"], "")), ca=str(d.get(K["ca"], "")))


def df(x, K):
    return [rw(d, K) for d in x.to_dict("records")]


def full(l):
    return [{"id": c["id"], "ca": c["ca"], "ev": [dict(e, t=e["t"] * 1000) for e in c["ev"]]} for c in l]


def mkdf(c, K):
    d = gens.to_df(c["log"], K, c["order"])
    if c.get("labels"):
        idx = list(range(len(d)))
        R.Random(c["seed"]).shuffle(idx)
        d.index = [7 * x + 3 for x in idx]
    return d


def run(c):
    import pm4py
    k, K = c["k"], keys(c)
    R.seed(c["seed"])
    __import__("numpy").random.seed(c["seed"] % 2**31)
    if k.startswith("oc_"):
        return run_oc(c)
    if k == "parse":
        return run_parse(c)
    if k == "ser":
        return run_ser(c)
    form = c["form"]
    l = full(c["log"])
    src = mkdf(c, K) if form == "df" else gens.to_stream(c["log"], K, c["order"]) if form in ("stream", "u_stream") else gens.to_eventlog(c["log"], tr_keys(K))
    rec = {"op": k, "form": "df" if form == "df" else "log" if form in ("log", "u_log") else form, "w": l, "rows": df(src, K) if form == "df" else [rw(e, K) for e in src] if form in ("stream", "u_stream") else [], "n": c["n"]}
    dump = (lambda x: df(x, K)) if form == "df" else (lambda x: [rw(e, K) for e in x]) if form in ("stream", "u_stream") else (lambda x: lg(x, K))
    kw = {"case_id_key": K["case"]} if form == "df" else {}

    def go():
        if k == "cases":
            rec["out"] = dump(pm4py.sample_cases(src, c["n"], **kw))
        elif k == "events":
            rec["out"] = dump(pm4py.sample_events(src, c["n"]))
        elif k == "split":
            a, b = pm4py.split_train_test(src, c["p"] / 8, **kw)
            rec.update(train=dump(a), test=dump(b), p=c["p"])
        elif k == "prefix":
            rec["out"] = dump(pm4py.get_prefixes_from_log(src, c["n"], **kw))
        elif k == "fun":
            from pm4py import hof
            if form == "log":
                rec["out"] = lg(hof.filter_log(lambda t: len(t) >= c["n"], src), K)
            elif form == "stream":
                rec["out"] = dump(hof.filter_log(lambda e: e["val"] >= c["n"], src))
            else:
                rec["out"] = [tr(hof.filter_trace(lambda e: e["val"] >= c["n"], t), K) for t in src]
        elif k == "sort":
            from pm4py import hof
            from pm4py.objects.log.util import sorting
            key = (lambda e: e[K[c["key"]]])
            rec.update(reverse=c["reverse"], key=c["key"])
            if form == "log":
                rec["out"] = lg(hof.sort_log(src, len, reverse=c["reverse"]), K)
            elif form == "u_log":
                rec["out"] = lg(sorting.sort_lambda(src, len, reverse=c["reverse"]), K)
            elif form == "trace":
                rec["out"] = [tr(hof.sort_trace(t, key, reverse=c["reverse"]), K) for t in src]
            else:
                rec["form"] = "stream"
                rec["out"] = dump(hof.sort_log(src, key, reverse=c["reverse"]) if form == "stream" else sorting.sort_lambda(src, key, reverse=c["reverse"]))
        elif k == "sort_time":
            from pm4py.objects.log.util import sorting
            rec.update(reverse=c["reverse"], out=dump(sorting.sort_timestamp(src, reverse_sort=c["reverse"])))
        elif k == "project":
            o = pm4py.project_on_event_attribute(src, K[c["att"]], **kw) if not c["custom"] or form != "df" else None
            if o is None:
                from pm4py.objects.log.util import dataframe_utils
                src2 = src.rename(columns={K["t"]: "time:timestamp"})
                o = pm4py.project_on_event_attribute(src2, K[c["att"]], **kw)
            rec.update(att=c["att"], out=[[val(x) if c["att"] == "v" else str(x) for x in y] for y in o])
        elif k == "format":
            run_format(c, src, rec)
        elif k == "rebase":
            run_rebase(c, src, rec)
        elif k == "classifier":
            ks = [K[x] for x in c["keys"]]
            cl = ks
            if c["how"] == "name" and form == "log":
                src.classifiers["cl"] = ks
                cl = "cl"
            elif c["how"] == "str" and len(ks) == 1:
                cl = ks[0]
            o = pm4py.set_classifier(src, cl)
            evs = o.to_dict("records") if form == "df" else [e for t in o for e in t]
            rec.update(out=dump(o), keys=c["keys"], cls=[e["@@classifier"] for e in evs], prop=(o.attrs if form == "df" else o.properties).get("pm4py:param:activity_key", ""))
        elif k == "artificial":
            a = dict(activity_key=K["a"], timestamp_key=K["t"], case_id_key=K["case"])
            o = pm4py.insert_artificial_start_end(src, artificial_start="S!", artificial_end="E!", **a)
            rec["out"] = dump(o)
        elif k == "variants":
            a = dict(activity_key=K["a"], timestamp_key=K["t"], case_id_key=K["case"])
            rec["out"] = [[list(v), df(d, K)] for v, d in pm4py.split_by_process_variant(src, **a)]
        elif k == "partition":
            from pm4py.objects.log.util import dataframe_utils
            if c["n"] == 0:
                c["n"] = rec["n"] = 1
            o = dataframe_utils.insert_partitioning(src, c["n"])
            rec.update(out=dump(o), part=[int(x) for x in o["@@partitioning"]])
    _, x = core.attempt(go)
    if x:
        return {"op": "exc", "exc": x, "case": k, "form": form}
    if k == "format" and not rec.get("out"):
        rec["out"] = []
    if form in ("log", "df", "stream", "trace") and k not in ("artificial", "classifier", "format", "rebase", "partition"):
        rec["after"] = df(src, K) if form == "df" else [rw(e, K) for e in src] if form == "stream" else lg(src, K)
    return rec


def run_format(c, src, rec):
    import pm4py, pandas as pd
    K = keys(c)
    for j, w in enumerate(c["nulls"]):
        if w:
            src.iloc[j, list(src.columns).index(K[w])] = None if w != "t" else pd.NaT
    if c["numcase"]:
        src[K["case"]] = pd.to_numeric(src[K["case"]].str[1:])
        if not src[K["case"]].isna().any():
            src[K["case"]] = src[K["case"]].astype(int)
        else:
            src = src.dropna(subset=[K["case"]])
            src[K["case"]] = src[K["case"]].astype(int)
    if c["stale"] and c["custom"]:
        src["concept:name"] = "old"
        src["case:concept:name"] = "old"
    recs = src.to_dict("records")
    rec["rows"] = []
    for d in recs:
        d = {k: (None if v is pd.NaT or v != v else v) for k, v in d.items()}
        rec["rows"].append(dict(ev(d, K), c="" if d[K["case"]] is None else str(d[K["case"]]), ca=str(d[K["ca"]])))
    rec["ord"] = sorted({r["c"] for r in rec["rows"]})
    if c["strtime"]:
        src[K["t"]] = [None if x is pd.NaT else x.isoformat() for x in src[K["t"]]]
    o = pm4py.format_dataframe(src, case_id=K["case"], activity_key=K["a"], timestamp_key=K["t"])
    rec["out"] = df(o, dict(STD, r=K["r"]))
    rec["index"] = [int(x) for x in o["@@index"]]
    rec["cindex"] = [int(x) for x in o["@@case_index"]]
    rec["kept"] = all(x in o.columns for x in K.values())


def run_rebase(c, src, rec):
    import pm4py
    ci, ai = c["as"]
    name = {"ca": STD["ca"], "r": STD["r"], "a": STD["a"]}
    rec["rows"] = [dict(e, c=t["id"], ca=t["ca"]) for t in full(c["log"]) for e in t["ev"]] if c["form"] == "log" else rec["rows"]
    o = pm4py.rebase(src, case_id=name[ci], activity_key=name[ai], timestamp_key=STD["t"])
    f = c["form"]
    evs = o.to_dict("records") if f == "df" else [dict(e, **{"case:concept:name": t.attributes["concept:name"]}) for t in o for e in t] if f == "log" else list(o)
    rec["out"] = [rw(d, STD) for d in evs]
    rec.update(ci=ci, ai=ai, ord=sorted({r[ci] for r in rec["rows"]}), traces=[t.attributes["concept:name"] for t in o] if f == "log" else [])


def run_parse(c):
    import pm4py
    words = [[e["a"] for e in x["ev"]] for x in c["log"]]

    def go():
        o = pm4py.parse_event_log_string([c["sep"].join(w) for w in words], sep=c["sep"], return_legacy_log_object=c["form"] == "log")
        if c["form"] == "log":
            return [[tr_["concept:name"] if False else tr_.attributes["concept:name"], [[e["concept:name"], gens.secs(e["time:timestamp"]) - gens.secs(o[0][0]["time:timestamp"])] for e in tr_]] for tr_ in o]
        out, t0 = {}, gens.secs(o["time:timestamp"].iloc[0])
        for d in o.to_dict("records"):
            out.setdefault(d["case:concept:name"], []).append([d["concept:name"], gens.secs(d["time:timestamp"]) - t0])
        return [[a, b] for a, b in out.items()]
    o, x = core.attempt(go)
    if x:
        return {"op": "exc", "exc": x, "case": "parse"}
    o = sorted(o, key=lambda y: int(y[0]))
    return {"op": "parse", "words": words, "ids": [y[0] for y in o], "xids": [str(i) for i in range(len(words))], "out": [[z[0] for z in y[1]] for y in o], "times": [[z[1] for z in y[1]] for y in o]}


def run_ser(c):
    import pm4py
    f = c["form"]

    def canon(o):
        if f == "df":
            return [str(sorted(d.items(), key=str)) for d in o.to_dict("records")] + [str(o.dtypes.to_dict())]
        if f == "log":
            return [str([sorted(t.attributes.items()), [sorted((a, str(b)) for a, b in e.items()) for e in t]]) for t in o]
        if f == "tree":
            def t(x):                                # children of choices and concurrency in any order
                op = str(x.operator.name) if x.operator else ""
                k = [t(y) for y in x.children]
                if op == "LOOP" and len(k) > 2:      # several redo parts: a choice between them
                    k = [k[0], "XOR(%s)" % ",".join(sorted(k[1:]))]
                return "%s(%s)" % (op or x.label, ",".join(sorted(k) if op in ("XOR", "PARALLEL", "OR", "INTERLEAVING") else k))
            return [t(o)]
        if f == "net":
            p, im, fm = o
            return sorted("%s|%s|%s" % (a.source.name, a.target.name, a.weight) for a in p.arcs) + sorted("%s:%s" % (t.name, t.label) for t in p.transitions) + sorted("%s" % x.name for x in p.places) + [str(sorted((x.name, v) for x, v in m.items())) for m in (im, fm)]
        if f == "dfg":
            return [str(sorted((str(a), b) for a, b in y.items())) for y in o]
        ids = {n: "%s/%s" % (type(n).__name__.replace("Normal", ""), n.name) for n in o.get_nodes()}
        return sorted(ids.values()) + sorted("%s>%s" % (ids[x.source], ids[x.target]) for x in o.get_flows())

    def go():
        if f == "df":
            o = (gens.to_df(c["log"], STD, c["order"]),)
        elif f == "log":
            o = (gens.to_eventlog(c["log"], tr_keys(STD)),)
        elif f == "dfg":
            o = pm4py.discover_dfg(gens.to_df(c["log"], STD, c["order"]))
        else:
            t = gens.tree_to_pm(c["tree"])
            o = (t,) if f == "tree" else pm4py.convert_to_petri_net(t) if f == "net" else (pm4py.convert_to_bpmn(t),)
        a = canon(o[0] if len(o) == 1 else o)
        b = pm4py.deserialize(pm4py.serialize(*o))
        return a, canon(b), canon(o[0] if len(o) == 1 else o)
    o, x = core.attempt(go)
    if x:
        return {"op": "exc", "exc": x, "case": "ser", "form": f}
    return {"op": "ser", "before": o[0], "out": o[1], "after": o[2]}


def run_oc(c):
    import pm4py
    oc = ocels.build(c["w"])
    f = {"oc_events": pm4py.sample_events, "oc_objects": pm4py.sample_ocel_objects, "oc_cc": pm4py.sample_ocel_connected_components}[c["k"]]
    o, x = core.attempt(f, oc, c["n"])
    if x:
        return {"op": "exc", "exc": x, "case": c["k"]}
    return {"op": c["k"], "w": ocels.full(c["w"]), "n": c["n"], "out": ocels.dump(o), "after": ocels.dump(oc)}


def nontrivial(c, evs):
    e = evs[0] if evs else {"op": "exc"}
    if e["op"] == "exc":
        return False
    if c["k"].startswith("oc_"):
        return 0 < len(e["out"]["rel"]) < len(c["w"]["rel"])
    if c["k"] == "split":
        return bool(e["train"]) and bool(e["test"])
    if c["k"] in ("cases", "events", "prefix", "fun"):
        tot = len(e["rows"]) or len(e["w"])
        return 0 < len(e["out"]) < tot or c["k"] == "prefix"
    return True
