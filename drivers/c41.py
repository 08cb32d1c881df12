"""C41: feature tables of object-centric logs (objects, events, event/object pairs)."""
from fractions import Fraction
from vf import core, gens, ocels

MODULE = "TrC41"
RULE = "random object-centric logs (simultaneous events, several components, events or objects without relations, attributes with gaps, time zones) through the object, event and event/object feature tables with random subsets of the feature families, and through pm4py.extract_ocel_features; non-trivial: some object has two events and some event two objects"
OBJ = ["lifecycle_length", "lifecycle_duration", "lifecycle_activities", "lifecycle_unq_act", "lifecycle_paths", "degree_centrality", "general_interaction_graph", "general_descendants_graph",
       "general_inheritance_graph", "cobirth_graph", "codeath_graph", "str_attributes", "num_attributes", "interaction_graph_ot", "work_in_progress"]
EV = ["activity", "timestamp", "num_rel_objs", "num_rel_objs_type", "str_attributes", "num_attributes", "start_ot", "end_ot"]
GRAPHS = ["", "", "object_interaction_graph", "object_descendants_graph", "object_inheritance_graph", "object_cobirth_graph", "object_codeath_graph"]
KINDS = ["obj", "obj", "obj", "ev", "ev", "eo", "api", "nested"]


def subset(rng, xs):
    p = rng.choice([.25, .6, 1])
    return [x for x in xs if rng.random() < p]


def cases(rng, tier):
    n = 1600 if tier == "quick" else 12000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        O = ocels.rocel(rng, nev=rng.choice([4, 7]), nob=rng.choice([3, 5]), quals=False, o20=False, ties=rng.choice([0, .3]), maxrel=rng.choice([2, 3]))
        if not any("x" in e for e in O["ev"]):
            O["ev"][0]["x"] = "k"
        if not any("n" in e for e in O["ev"]):
            O["ev"][-1]["n"] = 2
        if not any("y" in o for o in O["ob"]):
            O["ob"][0]["y"] = "u"
        if not any("m" in o for o in O["ob"]):
            O["ob"][-1]["m"] = 3
        c = {"k": k, "w": O, "obj": subset(rng, OBJ), "ev": subset(rng, EV), "new": rng.random() < .4, "tz": rng.choice([0, 0, 0, 5, -7]), "ty": "", "ids": False, "g": ""}
        if k == "nested":
            c["nest"] = rng.choice(["events", "activities", "objects", "graph", "graph"])
            c["obj"], c["ev"] = c["obj"][:4], c["ev"][:4]
            c["g"] = rng.choice(GRAPHS)
        if k in ("obj", "api") and (k == "api" or rng.random() < .3):
            c["ty"] = rng.choice([o["ty"] for o in O["ob"]])
        if k == "api":
            c["ids"] = rng.random() < .5
        if k in ("ev", "nested"):
            c["new"] = rng.random() < .5
        if "work_in_progress" in c["obj"] or k == "api":
            ids = {r["o"] for r in O["rel"]}
            O["ob"] = [o for o in O["ob"] if o["id"] in ids]
            if not any("y" in o for o in O["ob"]):
                O["ob"][0]["y"] = "u"
            if not any("m" in o for o in O["ob"]):
                O["ob"][-1]["m"] = 3
            if k == "api" and c["ty"] not in [o["ty"] for o in O["ob"]]:
                c["ty"] = O["ob"][0]["ty"]
        yield c


def num(v):
    f = Fraction(float(v)).limit_denominator(2000)
    return [f.numerator, f.denominator]


def params(c):
    d = {"enable_all": False}
    for x in OBJ:
        d[("enable_" if x == "lifecycle_unq_act" else "enable_") + ("" if x.startswith("object") else "object_") + x] = x in c["obj"]
    for x in EV:
        d["enable_event_" + x] = x in c["ev"]
    d["enable_new_interactions"] = c["new"]
    d.update(str_obj_attr=["y"], num_obj_attr=["m"], str_ev_attr=["x"], num_ev_attr=["n"])
    return d


def run(c):
    import pm4py
    from importlib import import_module
    from pm4py.algo.transformation.ocel.features.objects import algorithm as of
    from pm4py.algo.transformation.ocel.features.events import algorithm as ef
    from pm4py.algo.transformation.ocel.features.events_objects import algorithm as eof
    k, w = c["k"], c["w"]
    oc = ocels.build(w, tz=c["tz"] or None)
    before = ocels.dump(oc)
    p = params(c)
    r = dict(op=k, w=before, obj=c["obj"], ev=c["ev"] + (["new"] if c["new"] else []), tz=c["tz"], onum=[[o["id"], o["m"]] for o in w["ob"] if "m" in o], enum=[[e["id"], e["n"]] for e in w["ev"] if "n" in e],
             base=int(gens.ts(0).timestamp()), ty=c["ty"], nest="", g="")
    if k in ("obj", "nested"):
        if c["ty"]:
            p["filter_per_type"] = c["ty"]
        n = c.get("nest")
        r["nest"] = n or ""
        if n == "events":
            p["enable_related_events_features"] = True
        elif n == "activities":
            p["enable_related_activities_features"] = True
        elif n == "graph":
            p["enable_obj_con_in_graph_features"] = True
            r["g"] = c["g"] or "object_interaction_graph"
            if c["g"]:
                p["graph"] = import_module("pm4py.algo.transformation.ocel.graphs." + c["g"])
        if n == "objects":
            p["enable_related_objects_features"] = True
            data, names = ef.apply(oc, parameters=p)
            ids = [e["id"] for e in w["ev"]]
            dd = ef.transform_features_to_dict_dict(oc, data, names)
        else:
            data, names = of.apply(oc, parameters=p)
            ids = [o["id"] for o in w["ob"] if not c["ty"] or o["ty"] == c["ty"]]
            dd = None if c["ty"] else of.transform_features_to_dict_dict(oc, data, names)
    elif k == "ev":
        data, names = ef.apply(oc, parameters=p)
        ids = [e["id"] for e in w["ev"]]
        dd = ef.transform_features_to_dict_dict(oc, data, names)
    elif k == "eo":
        data, names = eof.apply(oc)
        ids, dd = [[x["e"], x["o"]] for x in w["rel"]], None
    else:
        paths, wip, st, nu = "lifecycle_paths" in c["obj"], "work_in_progress" in c["obj"], "str_attributes" in c["obj"], "num_attributes" in c["obj"]
        df = pm4py.extract_ocel_features(oc, c["ty"], enable_object_lifecycle_paths=paths, enable_object_work_in_progress=wip, object_str_attributes=["y"] if st else None,
                                         object_num_attributes=["m"] if nu else None, include_obj_id=c["ids"])
        ids = [o["id"] for o in w["ob"] if o["ty"] == c["ty"]]
        if c["ids"]:
            r["given"] = df["ocel:oid"].tolist()
            del df["ocel:oid"]
        data, names, dd = df.values.tolist(), list(df.columns), None
        off = [x for x in ("lifecycle_paths", "work_in_progress", "str_attributes", "num_attributes") if x not in c["obj"]]
        r["obj"] = [x for x in OBJ if x not in off]
    r.update(ids=ids, names=[str(x) for x in names], rows=[[num(v) for v in row] for row in data])
    r["byid"] = dd is None or all(dd.get(i) == dict(zip(names, row)) for i, row in zip(ids, data)) and len(dd) == len(ids)
    r["same"] = ocels.dump(oc) == before
    return r


def nontrivial(c, evs):
    rel = c["w"]["rel"]
    o, e = [r["o"] for r in rel], [r["e"] for r in rel]
    return len(set(o)) < len(o) and len(set(e)) < len(e)
