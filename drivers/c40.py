"""C40: transformations of object-centric logs; object-centric logs from event tables; interleavings and links of events."""
import random
from vf import core, gens, ocels

MODULE = "TrC40"
RULE = "random object-centric logs (simultaneous events, duplicate events, several components, events or objects without relations where allowed, attributes with gaps, shuffled identifiers) through every transformation, event tables (event log and dataframe, several objects per cell) through every conversion, pairs of related logs and tables with in/out columns; non-trivial: some object has two events and some event two objects"
KINDS = ["drop", "merge", "merge", "sortcol", "delta", "stages", "explode", "rename", "strip", "abbrev", "totype", "parent", "tables", "splitcc", "splitfam", "cluster", "cluster", "ext",
         "fromlog", "multi", "inter", "frominter", "links"]


def related(O):
    ids, es = {r["o"] for r in O["rel"]}, {r["e"] for r in O["rel"]}
    O["ob"] = [o for o in O["ob"] if o["id"] in ids]
    O["ev"] = [e for e in O["ev"] if e["id"] in es]
    O["o2o"] = [x for x in O["o2o"] if x["o"] in ids and x["p"] in ids]
    O["e2e"] = [x for x in O["e2e"] if x["e"] in es and x["f"] in es]
    O["oc"] = [x for x in O["oc"] if x["o"] in ids]
    return O


def rtable(rng, ncases=4, pre="c"):
    """Rows of an event table in random order with distinct times."""
    rows, ts = [], rng.sample(range(0, 60), 24)
    for k in range(rng.randint(1, ncases)):
        ca = rng.choice(["", "g1", "g2"])
        for _ in range(rng.randint(1, 4)):
            if ts:
                rows.append({"c": "%s%d" % (pre, k), "a": rng.choice(["a", "b", "pay"]), "t": ts.pop(), "ea": rng.choice(["", "k", "a", "v"]), "ca": ca})
    rng.shuffle(rows)
    return rows


def cases(rng, tier):
    n = 1100 if tier == "quick" else 9000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        c = {"k": k}
        if k == "fromlog":
            c.update(rows=rtable(rng), how=rng.choice(["log", "pandas", "pandas"]), srt=rng.random() < .5)
        elif k == "multi":
            rows = []
            for i in range(rng.randint(1, 6)):
                row = {"a": rng.choice(["a", "b", "pay"]), "t": 10 * i, "x": rng.choice(["", "k", "v"]), "m": rng.choice(["", "p", "q"]), "o": []}
                for ty in ("order", "item"):
                    if rng.random() < .85:
                        row["o"].append([ty, [rng.choice([ty[0] + "1", ty[0] + "2", ty[0] + " 3"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]])
                rows.append(row)
            if not any(os_ for row in rows for _, os_ in row["o"]):
                rows[0]["o"] = [["order", ["o1"]]]
            c.update(rows=rows, sep=rng.choice([" AND ", ", ", ";"]), attrs=rng.random() < .7, oty=rng.choice(["order", "item", "none"]), api=rng.random() < .5)
        elif k in ("inter", "frominter"):
            ts = rng.sample(range(0, 60), 30)
            half = []
            for side in "lr":
                rows = []
                for q in range(rng.randint(1, 3)):
                    for t in sorted(ts.pop() for _ in range(rng.randint(1, 3))):
                        rows.append({"c": side + str(q), "a": rng.choice(["a", "b", "pay"]), "t": t})
                half.append(rows)
            L, R = half
            cl, cr = sorted({x["c"] for x in L}), sorted({x["c"] for x in R})
            c.update(l=L, r=R, cr=rng.sample([[a, b] for a in cl for b in cr], rng.randint(1, min(4, len(cl) * len(cr)))))
            if k == "frominter":
                c["iv"] = [dict(l=rng.randrange(len(L)), r=rng.randrange(len(R)), d=rng.choice(["LR", "RL"])) for _ in range(rng.randint(1, 4))]
                c["off"] = rng.choice([0, 0, 5])
        elif k == "links":
            rows = [{"i": rng.choice("uvwx"), "o": rng.choice("uvwx")} for _ in range(rng.randint(2, 6))]
            c.update(rows=rows, shuffle=rng.random() < .5, fwd=rng.random() < .7, first=rng.random() < .4, prop=rng.random() < .5)
        else:
            big = rng.random() < .4
            O = ocels.rocel(rng, nev=11 if big else 7, nob=7 if big else 5, quals=rng.random() < .3, maxrel=rng.choice([2, 3]), o20=rng.random() < .5, ties=rng.choice([.2, .6]),
                            nacts=rng.choice([2, 4]))
            if k in ("rename", "splitfam", "cluster"):
                O = related(O)
            c["w"] = O
            if k == "merge":
                c["common"] = rng.random() < .5
            if k == "totype":
                c["key"] = "x"
                if not any("x" in e for e in O["ev"]):
                    O["ev"][0]["x"] = "k"
            if k == "parent":
                c["child"], c["parent"] = rng.sample(sorted({o["ty"] for o in O["ob"]} | {"order", "item"}), 2)
            if k == "sortcol":
                if not any("n" in e for e in O["ev"]):
                    O["ev"][0]["n"] = 3
            if k in ("splitfam", "cluster"):
                c["ty"] = rng.choice([o["ty"] for o in O["ob"]])
                c["max"] = rng.choice([99, 99, 2])
            if k == "ext":
                c["obs"] = rng.random() < .5
        yield c


def frame(rows, cols):
    import pandas as pd
    return pd.DataFrame([{cols[x]: (gens.ts(v) if x == "t" else v) for x, v in r.items() if x in cols and v != ""} for r in rows])


def run(c):
    import pandas as pd, pm4py
    k = c["k"]
    if k in ("fromlog", "multi", "inter", "frominter", "links"):
        return table(c)
    oc = ocels.build(c["w"])
    unit = "ms" if k == "delta" else "s"
    w = ocels.dump(oc, unit)
    r = dict(op=k, w=w)
    srt = sorted(o["id"] for o in c["w"]["ob"])
    from pm4py.objects.ocel.util import explode, rename_objs_ot_tim_lex, ocel_type_renaming, ev_att_to_obj_type, parent_children_ref, ocel_to_dict_types_rel, extended_table, ocel_iterator
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
    out = None
    if k == "drop":
        out = pm4py.ocel_drop_duplicates(oc)
    elif k == "merge":
        out = pm4py.ocel_merge_duplicates(oc, c["common"])
        r.update(common=c["common"], sorted=srt)
    elif k == "sortcol":
        out = pm4py.ocel_sort_by_additional_column(oc, "n")
        r["col"] = [e.get("n", 9999) for e in c["w"]["ev"]]
    elif k == "delta":
        out = pm4py.ocel_add_index_based_timedelta(oc)
    elif k == "stages":
        out = pm4py.ocel_e2o_lifecycle_enrichment(oc)
    elif k == "explode":
        out = explode.apply(oc)
    elif k == "rename":
        out = rename_objs_ot_tim_lex.apply(oc)
        r["sorted"] = srt
    elif k == "strip":
        out = ocel_type_renaming.remove_spaces_non_alphanumeric_characters_from_types(oc)
    elif k == "abbrev":
        out = ocel_type_renaming.abbreviate_event_types(oc)
    elif k == "totype":
        out = ev_att_to_obj_type.apply(oc, c["key"])
        r["key"] = c["key"]
    elif k == "parent":
        out = parent_children_ref.apply(oc, c["child"], c["parent"])
        r.update(child=c["child"], parent=c["parent"])
    elif k == "tables":
        d = ocel_to_dict_types_rel.apply(oc)
        cols = {"ev_types": ["ocel:eid"], "obj_types": ["ocel:oid"], "e2o": ["ocel:eid", "ocel:oid"], "o2o": ["ocel:oid", "ocel:oid_2"], "changes": ["ocel:oid"]}
        r["out"] = {t: [dict(k=list(x) if isinstance(x, tuple) else [x], rows=df[cols[t]].values.tolist()) for x, df in m.items()] for t, m in d.items()}
    elif k == "splitcc":
        r["outs"] = [ocels.dump(x) for x in split.apply(oc, variant=split.Variants.CONNECTED_COMPONENTS)]
    elif k == "splitfam":
        r.update(ty=c["ty"], max=c["max"], sorted=srt)
        r["outs"] = [dict(central=x.parameters["@@central_object"], log=ocels.dump(x)) for x in split.apply(oc, variant=split.Variants.ANCESTORS_DESCENDANTS, parameters={"object_type": c["ty"], "max_objs": c["max"]})]
    elif k == "cluster":
        r.update(ty=c["ty"], sorted=srt, sa=sorted(ocels.ACTS), se=sorted(e["id"] for e in c["w"]["ev"]))
        r["outs"] = [[x.parameters["@@central_object"] for x in v] for v in pm4py.cluster_equivalent_ocel(oc, c["ty"]).values()]
    elif k == "ext":
        it = []
        for d in ocel_iterator.apply(oc):
            it.append(dict(e=d["ocel:eid"], a=d["ocel:activity"], t=gens.secs(d["ocel:timestamp"]), at=sorted([x, ocels.val(d[x])] for x in "xn" if x in d),
                           o=sorted([y, x[len("ocel:type:"):]] for x, v in d.items() if x.startswith("ocel:type:") for y in v)))
        r.update(iter=it, withobs=c["obs"])
        out = extended_table.get_ocel_from_extended_table(oc.get_extended_table(), objects_df=oc.objects if c["obs"] else None)
    if out is not None:
        r["out"] = ocels.dump(out, unit)
    r["after"] = ocels.dump(oc, unit)
    return r


def table(c):
    import pandas as pd, pm4py
    from pm4py.objects.ocel.util import log_ocel
    k = c["k"]
    if k == "fromlog":
        df = frame(c["rows"], {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp", "ea": "x", "ca": "case:z"})
        rows = c["rows"]
        if c["how"] == "log" or c["srt"]:
            df = df.sort_values(["case:concept:name", "time:timestamp"])
            rows = sorted(rows, key=lambda x: (x["c"], x["t"]))
            df = df.reset_index(drop=True)
        for col in ("x", "case:z"):
            if col not in df.columns:
                df[col] = None
        before = df.to_csv()
        if c["how"] == "log":
            log = pm4py.convert_to_event_log(df)
            out = log_ocel.from_traditional_log(log, parameters={"target_object_type": "ty"})
            ids, can = [str(i + 1) for i in range(len(rows))], "z"
        else:
            out = log_ocel.from_traditional_pandas(df, parameters={"target_object_type": "ty"})
            ids, can = ["E%d" % i for i in range(len(rows))], "case:z"
        o = ocels.dump(out)
        return dict(op="fromlog", rows=rows, ids=ids, ty="ty", can=can, order=[], sortd=c["how"] == "pandas", out=o, same=before == df.to_csv())
    if k == "multi":
        recs = []
        for x in c["rows"]:
            d = {"concept:name": x["a"], "time:timestamp": gens.ts(x["t"])}
            d.update({y: x[y] for y in "xm" if x[y] != ""})
            for ty, os_ in x["o"]:
                d[ty] = c["sep"].join(os_)
            recs.append(d)
        df = pd.DataFrame(recs, columns=["concept:name", "time:timestamp", "x", "m", "order", "item"])
        before = df.to_csv()
        f = pm4py.convert_log_to_ocel if c["api"] else log_ocel.log_to_ocel_multiple_obj_types
        out = f(df, "concept:name", "time:timestamp", ["order", "item"], c["sep"], additional_event_attributes=["x"] if c["attrs"] else None,
                additional_object_attributes={c["oty"]: ["m"]})
        rows = [dict(a=x["a"], t=x["t"], m=ocels.val(x["m"]), at=[["x", x["x"]]] if c["attrs"] and x["x"] else [], o=x["o"]) for x in c["rows"]]
        return dict(op="multi", rows=rows, oty=c["oty"], out=ocels.dump(out), same=before == df.to_csv())
    if k == "inter":
        from pm4py.algo.discovery.ocel.interleavings import algorithm as inter
        cols = {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp"}
        L, R = frame(c["l"], cols), frame(c["r"], cols)
        cr = pd.DataFrame([{"case:concept:name_LEFT": a, "case:concept:name_RIGHT": b} for a, b in c["cr"]])
        d = inter.apply(L, R, cr, parameters={})
        nm = {"▶": "^", "■": "$"}
        sec = lambda t: -1000000 if t.year < 1800 else 1000000 if t.year > 2200 else gens.secs(t)
        out = [[nm.get(x["@@source_activity"], x["@@source_activity"]), nm.get(x["@@target_activity"], x["@@target_activity"]), sec(x["@@source_timestamp"]), sec(x["@@target_timestamp"]), x["@@direction"]]
               for x in d.to_dict("records")]
        return dict(op="inter", cr=[dict(l=[dict(a=x["a"], t=x["t"]) for x in c["l"] if x["c"] == a], r=[dict(a=x["a"], t=x["t"]) for x in c["r"] if x["c"] == b]) for a, b in c["cr"]], out=out)
    if k == "frominter":
        cols = {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp"}
        L, R = frame(c["l"], cols), frame(c["r"], cols)
        L.index = range(c["off"], c["off"] + len(L))
        R.index = range(c["off"], c["off"] + len(R))
        iv = pd.DataFrame([{"@@left_index": v["l"] + c["off"], "@@right_index": v["r"] + c["off"], "@@direction": v["d"]} for v in c["iv"]])
        out = log_ocel.from_interleavings(L, R, iv)
        ll = [dict(x, id="E1_%d" % (i + c["off"]), ty="OTYPE") for i, x in enumerate(c["l"])]
        rr = [dict(x, id="E2_%d" % (i + c["off"]), ty="OTYPE2") for i, x in enumerate(c["r"])]
        return dict(op="frominter", l=ll, r=rr, iv=[dict(l=ll[v["l"]]["id"], r=rr[v["r"]]["id"], d=v["d"]) for v in c["iv"]], out=ocels.dump(out))
    if k == "links":
        from pm4py.algo.discovery.ocel.link_analysis import algorithm as links
        recs = [{"n": i + 1, "in": x["i"], "out": x["o"], "time:timestamp": gens.ts(60 * i)} for i, x in enumerate(c["rows"])]
        if c["shuffle"]:
            random.Random(len(recs)).shuffle(recs)
        d = links.apply(pd.DataFrame(recs), parameters={"out_column": "out", "in_column": "in", "look_forward": c["fwd"], "keep_first_occurrence": c["first"], "propagate": c["prop"]})
        return dict(op="links", rows=c["rows"], fwd=c["fwd"], first=c["first"], prop=c["prop"], out=d[["n_out", "n_in"]].values.tolist())
    raise core.MachineryError(k)


def nontrivial(c, evs):
    if "w" not in c:
        return True
    rel = c["w"]["rel"]
    o, e = [r["o"] for r in rel], [r["e"] for r in rel]
    return len(set(o)) < len(o) and len(set(e)) < len(e)
