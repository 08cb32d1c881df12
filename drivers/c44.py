"""C44: relabelling, encoding, lifting and clustering of logs."""
import random as R
from vf import core, gens
from drivers.c34 import STD, ev, full, lg, rw, tr_keys

MODULE = "TrC44"
RULE = "random logs (ties, shared words, interleaved dataframe rows, attributes constant in some or all cases, missing attributes) through every relabelling, encoding, lifting, reducing and clustering utility; non-trivial: something was relabelled, lifted, cut or split"
KINDS = ["alphabet", "alphabet", "move", "move", "lift", "lift", "wrapper", "wrapper", "onevar", "oneattr", "until", "until", "toact", "toact", "classes", "classes", "encoded", "encoded", "chars", "labels",
         "index", "classifier", "contextual", "contextual", "contextual", "merge", "merge", "table", "table", "pick", "pick", "cluster"]
ACTS = ["a", "b", "c d", "e", "f", "g"]


def cases(rng, tier):
    n = 900 if tier == "quick" else 12000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        big = k == "alphabet" and rng.random() < .4
        al = ["x%d" % i for i in range(rng.choice([27, 30, 60]))] if big else ACTS[:rng.randint(1, 6 if k != "contextual" else 3)]
        l = gens.rlog(rng, al, rng.choice([1, 2, 4, 7]) if k not in ("contextual", "cluster") else rng.choice([2, 4, 7]), rng.choice([2, 4, 7]) if not big else 40, ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 5, 3600]))
        ids = rng.sample(range(1, 99), len(l))
        i = 0
        for x, y in zip(l, ids):
            x["id"] = "c%d" % y
            one = rng.random() < .8
            for e in x["ev"]:
                e["i"] = i
                i += 1
                e["p"] = "P" + x["id"] if rng.random() < .95 or one else "Q"      # constant in (almost) every case
                e["q"] = "q" if j % 3 else rng.choice(["q", "q'"])
                e["z"] = rng.choice(["1", "2"])
                if rng.random() < (.03 if one else .2):
                    e.pop(rng.choice("pq"))
        c = {"k": k, "seed": rng.randint(0, 10**6), "log": l, "order": gens.interleaving(rng, l), "n": rng.choice([0, 1, 2, 3, 5, 9])}
        acts = sorted({e["a"] for x in l for e in x["ev"]})
        c["a"] = rng.choice(acts + ["zz"])
        if k == "move":
            c["copy"] = rng.random() < .5
        if k == "lift":
            c["retain"], c["ignore"] = rng.random() < .5, rng.sample(["a", "t", "p", "q", "z"], rng.randint(0, 2))
        if k == "until":
            c["dur"], c["future"] = rng.random() < .4, rng.random() < .4
        if k == "toact":
            c["acts"] = rng.sample(acts, rng.randint(1, len(acts)))
        if k == "classes":
            c["how"], c["att"], c["val"] = rng.choice(["presence", "value", "duration"]), rng.choice("azq"), rng.choice(acts + ["1", "q'"])
        if k == "encoded":
            c["atts"], c["concat"] = rng.sample(["v", "i", "nope"], rng.randint(1, 3)), rng.random() < .5
        if k == "classifier":
            c["how"] = rng.choice(["search", "search2", "force", "none", "trace"])
        if k == "contextual":
            c.update(pre=rng.choice([2, 2, 1, 0]), suf=rng.choice([2, 2, 1]), minw=rng.choice([[0, 1], [0, 1], [1, 2], [3, 4]]), target=rng.choice([None, None, acts[:1]]), col=rng.choice(["concept:name", "new"]), suffix=rng.choice(["_", "#"]))
        if k == "merge":
            l2 = gens.rlog(rng, ["u", "v"], rng.randint(1, 4), 3, maxdt=3600)
            for x, y in zip(l2, rng.sample(range(1, 99), len(l2))):
                x["id"] = "d%d" % y
            for x in l2:
                for e in x["ev"]:
                    e["i"] = i
                    i += 1
            c["log2"], c["order2"] = l2, gens.interleaving(rng, l2)
            c["rel"] = sorted({(rng.choice(l)["id"], rng.choice(l2)["id"]) for _ in range(rng.randint(1, 5))})
            rng.shuffle(c["rel"])
        if k == "table":
            c["form"], c["atts"] = rng.choice(["df", "df", "log"]), rng.choice([None, None, ["case:cattr"], ["val"]])
        if k == "pick":
            c["det"] = rng.random() < .5
        if k == "cluster":
            c["form"], c["nc"] = rng.choice(["df", "log"]), rng.choice([2, 2, 3])
        yield c


def at(e):
    """the attributes p, q, z of an event: "" if missing"""
    g = lambda k: "" if e.get(k) is None or e.get(k) != e.get(k) else str(e[k])
    return {"p": g("pp"), "q": g("qq"), "z": g("zz")}


def la(t):
    g = lambda k: "" if t.get(k) is None else str(t[k])
    return dict(at(t), v=g("val"), i=g("eid"))


def evp(e):
    return dict(ev(e, STD), **at(e))


def dump(l):
    return [{"id": str(t.attributes.get("concept:name", "")), "ca": str(t.attributes.get("cattr", "")), "ev": [evp(e) for e in t], "la": la(t.attributes)} for t in l]


def mklog(c):
    log = gens.to_eventlog(c["log"], tr_keys(STD))
    for t, x in zip(log, c["log"]):
        for e, y in zip(t, x["ev"]):
            for k in "pqz":
                if k in y:
                    e[k * 2] = y[k]
    return log


def run(c):
    import pm4py, pandas as pd
    from pm4py.objects.log.obj import EventLog
    k = c["k"]
    R.seed(c["seed"])
    rec = {"op": k, "w": [{"id": x["id"], "ca": x["ca"], "ev": [dict(e, p=y.get("p", ""), q=y.get("q", ""), z=y.get("z", "")) for e, y in zip(f["ev"], x["ev"])], "la": {"p": "", "q": "", "z": "", "v": "", "i": ""}}
                          for x, f in zip(c["log"], full([{**x, "ev": [{a: b for a, b in e.items() if a not in "pqz"} for e in x["ev"]]} for x in c["log"]]))]}
    df = lambda: gens.to_df(c["log"], STD, c["order"])
    rows = lambda d: [rw(x, STD) for x in d.to_dict("records")]
    kk = {"pm4py:param:activity_key": "concept:name"}

    def go():
        if k == "alphabet":
            from pm4py.objects.log.util import activities_to_alphabet as m
            d = df()
            rec["rows"] = rows(d)
            o, mp = m.apply(d, parameters={"return_mapping": True})
            rec.update(out=rows(o), map=sorted([a, b] for a, b in mp.items()))
        elif k == "move":
            from pm4py.objects.log.util import move_attrs_to_trace as m
            log = mklog(c)
            rec.update(copy=c["copy"], out=dump(m.apply(log, parameters={m.Parameters.ENABLE_DEEPCOPY: c["copy"]})))
            rec["after"] = dump(log)
        elif k == "lift":
            from pm4py.objects.log.util import log as m
            log = mklog(c)
            nm = {"a": "concept:name", "t": "time:timestamp", "p": "pp", "q": "qq", "z": "zz"}
            ign = [nm[x] for x in c["ignore"] if nm[x] in log[0][0]]
            others = [x for x in log[0][0] if x not in nm.values()]
            o = m.derive_and_lift_trace_attributes_from_event_attributes(log, ignore=set(ign + others + ["concept:name", "time:timestamp"]), retain_on_event_level=c["retain"])
            rec.update(out=dump(o), retain=c["retain"], ignore=[x for x in c["ignore"] if x in "pqz"])
        elif k == "wrapper":
            from pm4py.objects.log.util import pandas_log_wrapper as m
            d = df()
            rec["rows"] = rows(d)
            w = m.PandasLogWrapper(d)
            f = lambda t: {"id": t.attributes["concept:name"], "ca": t.attributes["cattr"], "ev": [ev(e, STD) for e in t], "n": len(t), "first": ev(t[0], STD), "last": ev(t[-1], STD)}
            rec.update(ord=sorted({r["c"] for r in rec["rows"]}), n=len(w), out=[f(t) for t in w], at=[f(w[i]) for i in range(len(w))], list=[f(t) for t in w._list], back=[f(w[-i - 1]) for i in range(len(w))])
        elif k == "onevar":
            from pm4py.objects.log.util import filtering_utils as m
            o = m.keep_one_trace_per_variant(mklog(c))
            rec.update(out=dump(o), num=[t.attributes["@@num_traces"] for t in o])
        elif k == "oneattr":
            from pm4py.objects.log.util import filtering_utils as m
            o = m.keep_only_one_attribute_per_event(mklog(c), "org:resource")
            rec.update(out=[[dict(e) for e in t] for t in o])
            rec["out"] = [[[e["org:resource"], len(e)] for e in t] for t in rec["out"]]
        elif k == "until":
            from pm4py.objects.log.util import get_prefixes as m
            log = mklog(c)
            for i, t in enumerate(log):
                for e in t:
                    e["dur"] = e["eid"] * 10
            p = {"use_future_attributes": c["future"]}
            if c["dur"]:
                p["duration"] = "dur"
            o, tm = m.get_log_traces_until_activity(log, c["a"], parameters=p)
            rec.update(out=dump(o), times=[int(round(x * (1 if c["dur"] else 1000))) for x in tm], a=c["a"], dur=c["dur"], future=c["future"])
            rec["after"] = dump(log)
        elif k == "toact":
            from pm4py.objects.log.util import get_prefixes as m
            o, used = m.get_log_traces_to_activities(mklog(c), c["acts"], parameters={})
            rec.update(out=[dump(x) for x in o], used=list(used), acts=c["acts"])
        elif k == "classes":
            from pm4py.objects.log.util import get_class_representation as m
            log = mklog(c)
            a = {"a": "concept:name", "z": "zz", "q": "qq"}[c["att"]]
            if c["how"] == "presence":
                t, cl = m.get_class_representation_by_str_ev_attr_value_presence(log, a, c["val"])
            elif c["how"] == "value":
                t, cl = m.get_class_representation_by_str_ev_attr_value_value(log, a)
            else:
                t, cl = m.get_class_representation_by_trace_duration(log, c["n"] * 3)
            rec.update(how=c["how"], att=c["att"], val=c["val"], n=c["n"] * 3, target=[int(x) for x in t], classes=[str(x) for x in cl])
        elif k == "encoded":
            from pm4py.objects.log.util import get_log_encoded as m
            log = mklog(c)
            nm = {"v": "val", "i": "eid", "nope": "nope"}
            for i, t in enumerate(log):
                t.attributes["num"] = i + 7
            D, cols = m.get_log_encoded(log, ["num"], [nm[x] for x in c["atts"]], concatenate=c["concat"])
            inv = {v: a for a, v in nm.items()}
            rec.update(atts=c["atts"], concat=c["concat"], out=[[-999999 if x is None else int(x) for x in r] for r in D], cols=[inv.get(x, x) for x in cols])
        elif k == "chars":
            from pm4py.objects.log.util import log_regex as m
            log = mklog(c)
            h = len(log) // 2
            l1, l2 = EventLog(log[:h]), EventLog(log[h:])
            mp = m.form_encoding_dictio_from_log(log, parameters={})
            mp2 = m.form_encoding_dictio_from_two_logs(l1, l2, parameters={})
            part = {a: b for i, (a, b) in enumerate(sorted(mp.items())) if i != c["n"]}
            rec.update(map=sorted([a, str(ord(b))] for a, b in mp.items()), map2=sorted([a, str(ord(b))] for a, b in mp2.items()), out=[[str(ord(x)) for x in y] for y in m.get_encoded_log(log, mp, parameters={})],
                       part=sorted(part), partial=[[str(ord(x)) for x in y] for y in m.get_encoded_log(log, part, parameters={})], bad=[str(ord(x)) for x in "[]()*+^?$.\\|{}-"])
        elif k == "labels":
            from pm4py.objects.log.util import log as m
            log = mklog(c)
            vs, vm = m.get_trace_variants(log)
            ps = m.project_traces(log, ["concept:name", "val"])
            rec.update(labels=m.get_event_labels(log, "qq"), counted=sorted([a, b] for a, b in m.get_event_labels_counted(log, "qq").items()), variants=vs, members=[[t.attributes["concept:name"] for t in vm[i]] for i in range(len(vs))],
                       words=m.project_traces(log), pairs=[[[e["concept:name"], e["val"], len(e)] for e in t] for t in ps])
        elif k == "index":
            from pm4py.objects.log.util import index_attribute as m
            st = gens.to_stream(c["log"], STD, c["order"])
            rec["rows"] = [rw(e, STD) for e in st]
            o = m.insert_event_index_as_event_attribute(st)
            rec.update(out=[rw(e, STD) for e in o], idx=[e["@@eventindex"] for e in o])
            log = m.insert_trace_index_as_event_attribute(mklog(c))
            rec.update(tout=dump(log), tidx=[[e["@@traceindex"] for e in t] for t in log])
        elif k == "classifier":
            from pm4py.objects.log.util import insert_classifier as m
            log = mklog(c)
            how = c["how"]
            for t in log:
                for e in t:
                    e["lifecycle:transition"] = "complete" if e["eid"] % 2 else "start"
            if how == "search":
                log.classifiers.update({"Activity classifier": ["org:resource", "concept:name"], "MXML Legacy Classifier": ["concept:name"]})
            elif how == "search2":
                log.classifiers.update({"MXML Legacy Classifier": ["concept:name", "org:resource"]})
            elif how == "trace":
                log.classifiers["T"] = ["cattr", "concept:name"]
            if how == "trace":
                o, key = m.insert_trace_classifier_attribute(log, "T")
                rec["cls"] = [[t.attributes.get(key, "")] for t in o]
            else:
                o, key = m.search_act_class_attr(log, force_activity_transition_insertion=how != "none")
                rec["cls"] = [[e.get(key, "") for e in t] if key else [] for t in o]
            rec.update(how=how, key=key or "", out=dump(o))
        elif k == "contextual":
            from pm4py.algo.label_splitting import algorithm as m
            d = df()
            p = {"prefix_length": c["pre"], "suffix_length": c["suf"], "min_edge_weight": c["minw"][0] / c["minw"][1], "target_column": c["col"], "activities_suffix": c["suffix"]}
            if c["target"]:
                p["target_activities"] = c["target"]
            src = gens.to_eventlog(c["log"], tr_keys(STD)) if c["seed"] % 2 else d
            o = m.apply(src, parameters=p)
            rs = o.to_dict("records")
            new = {r["eid"]: r[c["col"]] for r in rs}
            rec.update(pre=c["pre"], suf=c["suf"], minw=c["minw"], target=c["target"] or [], suffix=c["suffix"], out=[[str(new[e["i"]]) for e in x["ev"]] for x in c["log"]], rest=sorted([int(r["eid"]), str(r["org:resource"]), str(r["case:concept:name"])] for r in rs),
                       xrest=sorted([e["i"], e["r"], x["id"]] for x in c["log"] for e in x["ev"]), acts=[str({r["eid"]: r for r in rs}[e["i"]]["concept:name"]) for x in c["log"] for e in x["ev"]] if c["col"] != "concept:name" else [])
        elif k == "merge":
            from pm4py.algo.merging.case_relations import algorithm as m
            d1, d2 = df(), gens.to_df(c["log2"], STD, c["order2"])
            o = m.apply(d1, d2, pd.DataFrame([{"case:concept:name_LEFT": a, "case:concept:name_RIGHT": b} for a, b in c["rel"]]))
            rec.update(rows=rows(d1), rows2=rows(d2), rel=[list(x) for x in c["rel"]], out=rows(o), ord=sorted(x["id"] for x in c["log"]))
        elif k == "table":
            from pm4py.objects.log.util import dataframe_utils as m
            d = df()
            src = gens.to_eventlog(c["log"], tr_keys(STD)) if c["form"] == "log" else d
            p = {} if c["atts"] is None else {"case_attributes": set(c["atts"])}
            if c["atts"] == ["val"]:
                seen = {}
                for x in c["log"]:
                    for e in x["ev"]:
                        e["v"] = seen.setdefault(x["id"], e["v"])
                d = df()
                src = gens.to_eventlog(c["log"], tr_keys(STD)) if c["form"] == "log" else d
                rec["w"] = [dict(x, ev=[dict(e, v=seen[x["id"]]) for e in x["ev"]]) for x in rec["w"]]
            A, C = m.dataframe_to_activity_case_table(src, parameters=p)
            base = {"case:concept:name", "case:cattr", "concept:name", "time:timestamp", "org:resource", "val", "eid"}
            rec.update(rows=rows(df()) if c["form"] == "df" else [], ecols=sorted(base & set(A.columns)), ccols=sorted(C.columns), xcase=sorted({"case:concept:name"} | set(c["atts"] or ["case:cattr"])), all=sorted(base),
                       eids=[int(x) for x in A["eid"]], ecase=[str(x) for x in A["case:concept:name"]], xe=[e["i"] for x in c["log"] for e in x["ev"]], form=c["form"],
                       ctab=sorted([str(r["case:concept:name"]), str(r.get("case:cattr", "")), str(r.get("val", ""))] for r in C.to_dict("records")), cn=len(C))
        elif k == "pick":
            from pm4py.objects.log.util import dataframe_utils as m
            d = df()
            rec["rows"] = rows(d)
            o = m.sample_dataframe(d, parameters={"max_no_cases": c["n"], "deterministic": c["det"]})
            o2 = m.sample_dataframe(d, parameters={"max_no_cases": c["n"], "deterministic": c["det"]})
            rec.update(out=rows(o), again=rows(o2), det=c["det"], n=c["n"])
        elif k == "cluster":
            from pm4py.util import ml_utils
            src = mklog(c) if c["form"] == "log" else df()
            nw = len({tuple(e["a"] for e in x["ev"]) for x in c["log"]})
            nc = min(c["nc"], nw)
            o = list(pm4py.cluster_log(src, sklearn_clusterer=ml_utils.KMeans(n_clusters=nc, random_state=0, n_init="auto")))
            f = lambda t: [str(t.attributes["concept:name"]), [e["concept:name"] for e in t], [e["eid"] for e in t]]
            rec.update(out=[[f(t) for t in pm4py.convert_to_event_log(x)] for x in o], n=nc)
    _, x = core.attempt(go)
    if x:
        return {"op": "exc", "exc": x, "case": k}
    return rec


def nontrivial(c, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    if c["k"] in ("move", "lift", "until"):
        return e["out"] != e["w"]
    if c["k"] == "contextual":
        return any(x != y["a"] for a, b in zip(e["out"], e["w"]) for x, y in zip(a, b["ev"]))
    return True
