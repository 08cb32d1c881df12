"""C24: flattening, object-centric directly-follows graph, object graphs, summaries and nets of object-centric logs."""
from vf import core, gens, ocels

MODULE = "TrC24"
RULE = "random object-centric logs (several components, simultaneous events, events without objects, objects without events, attributes with gaps, shuffled identifiers) through flattening, OC-DFG, OC-Petri-net discovery, the five object graphs, the enrichment and all summaries; non-trivial: some object has two events and some event two objects"
GRAPHS = ["object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath"]
KINDS = ["flat", "ocdfg", "graph", "graph", "enrich", "summary", "ocpn"]


def cases(rng, tier):
    n = 560 if tier == "quick" else 7000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        big = rng.random() < .4
        O = ocels.rocel(rng, nev=12 if big else 7, nob=8 if big else 5, quals=rng.random() < .3, maxrel=rng.choice([2, 3, 4]), o20=rng.random() < .4)
        if k == "ocpn":
            rel = {r["o"] for r in O["rel"]}
            tys = {o["ty"] for o in O["ob"] if o["id"] in rel}
            O["ob"] = [o for o in O["ob"] if o["ty"] in tys]
            ids = {o["id"] for o in O["ob"]}
            O["o2o"] = [x for x in O["o2o"] if x["o"] in ids and x["p"] in ids]
            O["oc"] = [x for x in O["oc"] if x["o"] in ids]
        c = {"k": k, "w": O}
        if k == "flat":
            c["ot"] = rng.choice([o["ty"] for o in O["ob"]] + ["zz"])
            c["idx"] = rng.random() < .3
        if k in ("graph", "enrich"):
            c["g"] = rng.choice(GRAPHS)
        if k == "ocpn":
            c["v"] = rng.choice(["im", "im", "imd"])
        yield c


def tab(d, depth):
    """Nested dictionary -> rows (keys.., values)."""
    rows = []
    for k, v in d.items():
        if depth == 0:
            rows.append((list(k) if isinstance(k, tuple) else [k]) + [sorted([list(x) if isinstance(x, tuple) else x for x in v], key=str)])
        else:
            for r in tab(v, depth - 1):
                rows.append([k] + r)
    return rows


def perf(d):
    return [[ot, a, b, [int(round(x)) for x in v]] for ot, m in d.items() for (a, b), v in m.items()]


def stat(d):
    return [dict(a=a, ot=ot, min=int(x["min"]), max=int(x["max"]), mean=list(gens.frac(x["mean"])), median=list(gens.frac(x["median"]))) for a, m in d.items() for ot, x in m.items()]


def run(c):
    import pm4py, pandas as pd
    k = c["k"]
    oc = ocels.build(c["w"])
    w = ocels.full(c["w"])
    if k == "flat":
        if c["idx"]:
            oc.events.index = range(7, 7 + len(oc.events))
            oc.objects.index = ["i%d" % i for i in range(len(oc.objects))]
        df = pm4py.ocel_flattening(oc, c["ot"])
        out = []
        for d in df.to_dict("records"):
            ea = sorted([x, ocels.val(d[x])] for x in "xn" if x in d and ocels.val(d[x]) != "")
            ca = sorted([x, ocels.val(d["case:" + x])] for x in "ym" if "case:" + x in d and ocels.val(d["case:" + x]) != "")
            out.append(dict(c=d["case:concept:name"], e=d["ocel:eid"], a=d["concept:name"], t=gens.secs(d["time:timestamp"]), ea=ea, ca=ca))
        return dict(op="flat", w=w, ot=c["ot"], out=out)
    if k == "ocdfg":
        g = pm4py.discover_ocdfg(oc)
        r = dict(op="ocdfg", w=w, activities=sorted(g["activities"]), types=sorted(g["object_types"]))
        for s, key in (("to", "total_objects"), ("uo", "unique_objects"), ("ec", "event_couples"), ("ev", "events")):
            if s != "ev":
                r["e_" + s] = tab(g["edges"][key], 1)
            if s != "ec":
                r["ai_" + s] = tab(g["activities_indep"][key], 0)
                r["at_" + s] = tab(g["activities_ot"][key], 1)
                r["s_" + s] = tab(g["start_activities"][key], 1)
                r["f_" + s] = tab(g["end_activities"][key], 1)
            if s in ("to", "ec"):
                r["p_" + s] = perf(g["edges_performance"][key])
        return r
    if k == "graph":
        return dict(op="graph", w=w, g=c["g"], out=sorted(list(x) for x in pm4py.discover_objects_graph(oc, c["g"])))
    if k == "enrich":
        o2 = pm4py.ocel_o2o_enrichment(oc, included_graphs=[c["g"] + "_graph"])
        return dict(op="enrich", w=w, g=c["g"], out=ocels.dump(o2)["o2o"])
    if k == "summary":
        from pm4py.objects.ocel.util import events_per_object_type, events_per_type_per_activity, objects_per_type_per_activity, convergence_divergence_diagnostics, related_events, related_objects, event_prefix_suffix_per_obj
        r = dict(op="summary", w=w)
        r["types"] = pm4py.ocel_get_object_types(oc)
        r["attrs"] = pm4py.ocel_get_attribute_names(oc)
        r["ota"] = [[x, sorted(y)] for x, y in pm4py.ocel_object_type_activities(oc).items()]
        r["otc"] = [[e, ot, int(n)] for e, m in pm4py.ocel_objects_ot_count(oc).items() for ot, n in m.items()]
        r["ept"] = [[ot, int(n)] for ot, n in events_per_object_type.apply(oc).items()]
        r["eta"] = stat(events_per_type_per_activity.apply(oc))
        r["ota2"] = stat(objects_per_type_per_activity.apply(oc))
        d = convergence_divergence_diagnostics.apply(oc)
        r["div"] = sorted(list(x) for x in d["divergence"])
        r["conv"] = sorted(list(x) for x in d["convergence"])
        r["temp"] = [dict(t=gens.secs(x["ocel:timestamp"]), a=list(x["ocel:activity"]), o=list(x["ocel:oid"])) for x in pm4py.ocel_temporal_summary(oc).to_dict("records")]
        r["objs"] = [dict(o=x["ocel:oid"], a=list(x["activities_lifecycle"]), s=gens.secs(x["lifecycle_start"]), f=gens.secs(x["lifecycle_end"]), d=int(round(x["lifecycle_duration"])), i=sorted(x["interacting_objects"])) for x in pm4py.ocel_objects_summary(oc).to_dict("records")]
        r["inter"] = [[x[y] for y in ("ocel:eid", "ocel:activity", "ocel:oid", "ocel:type", "ocel:oid_2", "ocel:type_2")] for x in pm4py.ocel_objects_interactions_summary(oc).to_dict("records")]
        r["rele"] = [dict(ty=ty, o=o, f=list(f)) for ty, m in related_events.related_events_dct(oc).items() for o, f in m.items()]
        r["relo"] = [dict(e=e, o=list(o)) for e, o in related_objects.related_objects_dct_overall(oc).items()]
        ext = []
        for d in oc.get_extended_table().to_dict("records"):
            ext.append(dict(e=d["ocel:eid"], a=d["ocel:activity"], t=gens.secs(d["ocel:timestamp"]), ot=[[x[len("ocel:type:"):], list(v)] for x, v in d.items() if x.startswith("ocel:type:") and isinstance(v, list)]))
        r["ext"] = ext
        for key, how in (("pre", "prefix"), ("suf", "suffix")):
            x = event_prefix_suffix_per_obj.apply(oc, parameters={event_prefix_suffix_per_obj.Parameters.PREFIX_OR_SUFFIX: how})
            r[key] = [[e, o, list(v)] for e, m in x.items() for o, v in m.items()]
        return r
    if k == "ocpn":
        m = pm4py.discover_oc_petri_net(oc, inductive_miner_variant=c["v"])
        nets = [dict(ot=ot, net=gens.net_from_pm(*n)) for ot, n in m["petri_nets"].items()]
        return dict(op="ocpn", w=w, nets=nets, fit=c["v"] == "im", dbl=[[ot, a, bool(b)] for ot, d in m["double_arcs_on_activity"].items() for a, b in d.items()])
    raise core.MachineryError(k)


def nontrivial(c, evs):
    rel = c["w"]["rel"]
    o, e = [r["o"] for r in rel], [r["e"] for r in rel]
    return len(set(o)) < len(o) and len(set(e)) < len(e)
