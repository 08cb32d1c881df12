"""C37: feature extraction, targets, rates and temporal features."""
from vf import core, gens

MODULE = "TrC37"
RULE = "random logs with interval events, partly missing resources, values and case attributes (ties, shared variants, cases with identical lead times), as event logs and as dataframes with interleaved rows, all feature families and target kinds, hourly and daily buckets; non-trivial: at least two features (classes, buckets) and two cases"
A = ["a", "b", "c", "d e"]


def cases(rng, tier):
    n = 700 if tier == "quick" else 8000
    for i in range(n):
        k = rng.choice(["fea", "auto", "extra", "feadf", "autodf", "eb", "target", "rates", "rates", "outcome", "temporal", "pos"])
        lab = A[:rng.randint(1, 4)]
        l = gens.rlog(rng, lab, rng.randint(1, 6), rng.randint(1, 6), resources=["R1", "R2", "R 3"][:rng.randint(1, 3)], ties=rng.choice([0, .3]), maxdt=rng.choice([3, 60, 7200]))
        iv = rng.random() < .6
        miss = rng.random() < .5
        for c in l:
            s = c["ev"][0]["t"]
            lo = None
            for e in c["ev"]:
                e["s"] = e["t"]
                if iv:
                    e["s"] = e["t"] - rng.choice([0, 0, 1, 5])
                    e["s"] = e["s"] if lo is None else max(lo, e["s"])
                    lo = e["s"]
                if miss and rng.random() < .25:
                    e.pop("r")
                if miss and rng.random() < .25:
                    e.pop("v")
            if rng.random() < .6:
                c["cn"] = rng.randint(0, 9)
            if miss and rng.random() < .3:
                c.pop("ca")
        if len(l) > 1 and rng.random() < .3:       # two cases with the same times
            l[1]["ev"] = [dict(e) for e in l[0]["ev"]]
        if rng.random() < .5:
            for c in l:
                c.setdefault("cn", 3)
        yes = lambda f: rng.random() < .6 and f
        every = lambda x: all(any(x in e for e in c["ev"]) for c in l)
        anyev = lambda x: any(x in e for c in l for e in c["ev"])
        y = {"k": k, "log": l, "iv": iv, "order": gens.interleaving(rng, l), "form": rng.choice(["log", "df"]), "api": rng.choice(["simple", "algo"])}
        y["str_tr"] = ["cattr"] if yes(any("ca" in c for c in l)) else []
        y["num_tr"] = ["cnum"] if yes(all("cn" in c for c in l)) else []
        y["str_ev"] = [x for x, q in (("concept:name", "a"), ("org:resource", "r")) if yes(anyev(q))]
        y["num_ev"] = ["val"] if yes(every("v")) else []
        y["succ"] = [x for x, q in (("concept:name", "a"), ("org:resource", "r")) if yes(anyev(q))]
        if not (y["str_tr"] or y["num_tr"] or y["str_ev"] or y["num_ev"]):
            y["str_ev"] = ["concept:name"]
        if k == "temporal" and not anyev("r"):
            l[0]["ev"][0]["r"] = "R1"
        y["mn"] = rng.choice([1, 2, 3]) if k != "outcome" else 5
        y["ids"] = rng.random() < .4
        y["pad"] = rng.random() < .5
        y["target"] = rng.choice(["next_activity", "next_time", "remaining_time"])
        y["which"] = rng.choice(["arr", "wait", "both"])
        y["freq"] = rng.choice(["h", "D"]) if max(e["t"] for c in l for e in c["ev"]) < 100000 else "D"
        yield y


def num(x):
    return int(x) if float(x) == int(x) else "%r" % x


def build(c, form):
    import pandas as pd
    l = c["log"]
    if form == "log":
        log = gens.to_eventlog(l)
        for t, y in zip(log, l):
            if "cn" in y:
                t.attributes["cnum"] = y["cn"]
            if not c["iv"]:
                for e in t:
                    del e["start_timestamp"]
        return log
    df = gens.to_df(l, None, c["order"])
    if any("cn" in y for y in l):
        d = {y["id"]: y["cn"] for y in l if "cn" in y}
        df["case:cnum"] = df["case:concept:name"].map(d)
    if not c["iv"]:
        del df["start_timestamp"]
    return df


def run(c):
    import pm4py
    from pm4py.util import pandas_utils
    from pm4py.algo.transformation.log_to_features import algorithm as FA
    from pm4py.algo.transformation.log_to_target import algorithm as TA
    k = c["k"]
    df = k in ("feadf", "autodf", "rates", "outcome", "pos") and (k != "rates" or c["form"] == "df") or (k in ("temporal", "target", "outcome") and c["form"] == "df")
    if k == "outcome":
        df = c["form"] == "df"
    log = build(c, "df" if df else "log")
    stk = "start_timestamp" if c["iv"] else "time:timestamp"
    ev = {"log": [dict(y, n=i) for i, y in enumerate(c["log"])]}
    pos, order = [0] * len(c["log"]), []
    for i in (c["order"] if df else [i for i, y in enumerate(c["log"]) for _ in y["ev"]]):
        pos[i] += 1
        order.append([i + 1, pos[i]])
    ch = {x: c[x] for x in ("str_tr", "num_tr", "str_ev", "num_ev", "succ", "mn")}
    if k in ("fea", "auto", "extra", "feadf", "autodf"):
        kw = {} if k in ("auto", "autodf") else {"str_tr_attr": c["str_tr"], "num_tr_attr": c["num_tr"], "str_ev_attr": c["str_ev"], "num_ev_attr": c["num_ev"]}
        if k in ("fea", "extra"):
            kw["str_evsucc_attr"] = c["succ"]
        par = {}
        if k == "extra":
            par = {"enable_all_extra_features": True, "pm4py:param:start_timestamp_key": stk}
        if k == "autodf":
            par = {5: c["mn"]} if c["api"] == "algo" else {}
            if c["api"] == "simple":
                ch["mn"] = 5
        if c["api"] == "simple":
            f, x = core.attempt(lambda: pm4py.extract_features_dataframe(log, include_case_id=c["ids"], case_id_key="case:concept:name" if df else None, **kw, **par))
        else:
            f, x = core.attempt(lambda: frame(FA.apply(log, parameters=dict(par, add_case_identifier_column=c["ids"], **kw))))
        if x:
            return {"op": "exc", "what": x}
        idc = [y for y in f.columns if y in ("@@case_id_column", "case:concept:name")]
        return dict(ev, op=k, **ch, ids=[str(y) for y in f[idc[0]]] if c["ids"] else [], feat=[[n, [num(y) for y in f[n]]] for n in list(f.columns) if n not in idc] if len(set(f.columns)) == len(f.columns) else [])
    if k == "eb":
        r, x = core.attempt(lambda: FA.apply(log, variant=FA.Variants.EVENT_BASED, parameters={"min_num_diff_str_values": c["mn"]}))
        if x:
            return {"op": "exc", "what": x}
        return dict(ev, op="eb", mn=c["mn"], names=list(r[1]), data=[[[num(z) for z in y] for y in t] for t in r[0].tolist()])
    if k == "target":
        T = c["target"]
        if c["api"] == "simple":
            c = dict(c, pad=False)
            r, x = core.attempt(lambda: pm4py.extract_target_vector(log, T))
        else:
            r, x = core.attempt(lambda: TA.apply(log, variant=getattr(TA.Variants, T.upper()), parameters={"enable_padding": c["pad"]}))
        if x:
            return {"op": "exc", "what": x}
        if df:       # cases of a dataframe in the order of their first row
            seen = list(dict.fromkeys(c["order"]))
            ev["log"] = [ev["log"][i] for i in seen]
        return dict(ev, op="target", k=T, pad=c["pad"], classes=list(r[1]), data=[[[num(z) for z in y] if isinstance(y, list) else num(y) for y in t] for t in r[0]])
    row = lambda r: {"id": str(r["case:concept:name"]), "a": str(r["concept:name"]), "t": gens.secs(r["time:timestamp"])}
    if k in ("rates", "outcome"):
        if k == "outcome":
            o, x = core.attempt(lambda: pm4py.extract_outcome_enriched_dataframe(log, start_timestamp_key=stk))
        else:
            def f():
                o = log
                if c["which"] in ("arr", "both"):
                    o = pm4py.insert_case_arrival_finish_rate(o, start_timestamp_key=stk)
                if c["which"] in ("wait", "both"):
                    o = pm4py.insert_case_service_waiting_time(o, start_timestamp_key=stk)
                return o
            o, x = core.attempt(f)
        if x:
            return {"op": "exc", "what": x}
        N = {"arr": "@@arrival_rate", "fin": "@@finish_rate", "serv": "@@service_time", "soj": "@@sojourn_time", "wait": "@@waiting_time"}
        have = {a: b for a, b in N.items() if b in o.columns}
        want = set(N) if k == "outcome" or c["which"] == "both" else {"arr", "fin"} if c["which"] == "arr" else {"serv", "soj", "wait"}
        if set(have) != want:
            raise core.MachineryError("columns %s" % sorted(have))
        rows = []
        fcols = [y for y in o.columns if y.startswith(("case:cattr_", "org:resource_", "concept:name_")) or y in ("case:cnum_y", "val_y", "case:cnum", "val")]
        for _, r in o.iterrows():
            d = dict(row(r), **{a: num(r[b]) for a, b in have.items()})
            if k == "outcome":
                f = []
                for y in fcols:
                    if y.endswith("_y") and y[:-2] in ("case:cnum", "val"):
                        f.append([y[:-2], num(r[y])])
                    elif y not in ("case:cnum", "val"):
                        f.append([y, num(r[y])])
                d["f"] = f
            rows.append(d)
        e = dict(ev, op="rates", order=order, rows=rows, mn=5)
        return e
    if k == "temporal":
        o, x = core.attempt(lambda: pm4py.extract_temporal_features_dataframe(log, grouper_freq=c["freq"], start_timestamp_key=stk))
        if x:
            return {"op": "exc", "what": x}
        N = {"arr": "average_arrival_rate", "fin": "average_finish_rate", "wait": "average_waiting_time", "soj": "average_sojourn_time", "serv": "average_service_time"}
        return dict(ev, op="temporal", size=3600 if c["freq"] == "h" else 86400, rows=[dict({a: gens.frac(r[b]) for a, b in N.items()}, ts=gens.secs(r["timestamp"]), n=num(r["num_events"]), cases=num(r["unique_cases"]), acts=num(r["unique_activities"]), res=num(r["unique_resources"])) for _, r in o.iterrows()])
    if k == "pos":
        o, x = core.attempt(lambda: pandas_utils.insert_feature_activity_position_in_trace(build(c, "df")))
        if x:
            return {"op": "exc", "what": x}
        cols = [y[len("@@position_"):] for y in o.columns if y.startswith("@@position_")]
        pos, order = [0] * len(c["log"]), []
        for i in c["order"]:
            pos[i] += 1
            order.append([i + 1, pos[i]])
        return dict(ev, op="pos", order=order, cols=cols, rows=[dict(row(r), pos=[-1 if r["@@position_" + y] != r["@@position_" + y] else num(r["@@position_" + y]) for y in cols]) for _, r in o.iterrows()])


def frame(r):
    import pandas as pd
    return pd.DataFrame(r[0], columns=r[1])


def nontrivial(c, ev):
    if not isinstance(ev, list):
        ev = [ev]
    e = ev[0]
    return e["op"] != "exc" and len(c["log"]) > 1 and len(e.get("feat", e.get("names", e.get("classes", e.get("rows", [])))) or [1, 2]) > 1


def signature(case, ev, clause):
    return case["k"] + "/" + core.sha(case)
