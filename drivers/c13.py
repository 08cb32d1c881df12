"""C13: model files."""
import os, shutil, tempfile
from vf import core, gens
from drivers import c05

MODULE = "TrC13"
RULE = "random nets (weights, multi-token markings, duplicate and special labels, inhibitor/reset arcs, stochastic and data annotations), DFGs (isolated and single activities included), BPMN diagrams (all exported node types, conditions, layouts) x file/string/ProM5/auto-layout; non-trivial: the model has a weight, special label, annotation or more than five nodes"
CASE_TIMEOUT = 60
WEIRD = ["a", "b", "A b", "é ü", "a<b>&\"c\"", "x'y", "名前", "a+complete", "tau", "place", "1", "a;b", "0x3", "1>2x3", "a  b", "arc", "None", "true", "$invisible$", "skip_1"]


def cases(rng, tier):
    n = 500 if tier == "quick" else 5000
    i = 0
    while i < n:
        k = rng.choice(["net", "net", "net", "dfg", "dfg", "bpmn", "bpmn"])
        how = rng.choice(["file", "string", "enc", "prom5", "ser"] if k == "net" else ["file", "string", "enc", "ser"])
        c = {"k": k, "how": how}
        if k == "net":
            np_, nt = rng.randint(1, 6), rng.randint(0, 6)
            pn = rng.sample(["p%d" % j for j in range(5)] + WEIRD, np_)
            # PNML identifiers are unique in the file
            tn = rng.sample([x for x in ["t%d" % j for j in range(5)] + WEIRD if x not in pn], nt)
            ts = [[t, None if rng.random() < .3 else rng.choice(WEIRD)] for t in tn]
            kind = rng.choice(["plain", "plain", "inh", "reset", "both"]) if how != "ser" else "plain"
            arcs = []
            for p in range(np_):
                for t in range(nt):
                    if rng.random() < .4:
                        ty = "n"
                        if kind != "plain" and rng.random() < .4:
                            ty = {"inh": "inhibitor", "reset": "reset"}.get(kind) or rng.choice(["inhibitor", "reset"])
                        arcs.append(["pt", p, t, rng.choice([1, 1, 1, 2, 3, 12]), ty])
                    if rng.random() < .4:
                        arcs.append(["tp", t, p, rng.choice([1, 1, 1, 2, 3, 12]), "n"])
            mk = lambda lo: [[p, rng.choice([1, 1, 2, 11])] for p in sorted(rng.sample(range(np_), rng.randint(lo, min(np_, 2))))]
            c.update(name=rng.choice(["net", "n<1>", ""]), ps=pn, ts=ts, arcs=arcs, im=mk(0), fm=mk(1), kind=kind)
            if rng.random() < .3:
                c["stoch"] = [[t, rng.choice(["NORMAL", "UNIFORM", "EXPONENTIAL", "LOGNORMAL", "GAMMA", "DETERMINISTIC", "IMMEDIATE"]), rng.choice([.5, 1.0, 2.5]), rng.choice([0, 1, 3]),
                               rng.choice([1.0, 2.0, 0.25])] for t in range(nt) if rng.random() < .6]
            if rng.random() < .3:
                c["data"] = [[t, rng.choice([None, "x > 3 && y < 2", "a == \"b\""]), rng.sample(["x", "y", "v w"], rng.randint(0, 2)), rng.sample(["x", "y", "v w"], rng.randint(0, 2))]
                             for t in range(nt) if rng.random() < .6]
                c["vars"] = [[v, rng.choice(["java.lang.String", "java.lang.Double"])] for v in ["x", "y", "v w"] if rng.random() < .6]
            if rng.random() < .2:
                c["layout"] = [[p, rng.randint(-50, 500), rng.randint(0, 500), rng.randint(1, 60), rng.randint(1, 60)] for p in range(np_ + nt) if rng.random() < .7]
        elif k == "dfg":
            A = rng.sample([w for w in WEIRD if how != "enc" or w != "名前"] + [" lead", "trail ", "\ttab"], rng.randint(1, 5))
            e = [[a, b] for a in A for b in A if rng.random() < .3]
            c.update(e=[x + [rng.choice([1, 2, 7, 1000000])] for x in e], sa=[[a, rng.randint(1, 9)] for a in sorted(rng.sample(A, rng.randint(1, len(A))))],
                     ea=[[a, rng.randint(1, 9)] for a in sorted(rng.sample(A, rng.randint(1, len(A))))])
        else:
            m = rng.randint(1, 9)
            ns = [[rng.choice(["start", "end", "task", "task", "task", "xor", "and", "or", "catch", "throw", "boundary", "sub"]), rng.choice(WEIRD + [""]), rng.choice(["Unspecified", "Diverging", "Converging"])] for _ in range(m)]
            fl = [[rng.randrange(m), rng.randrange(m), rng.choice(["", "", "x > 3", "a<b"])] for _ in range(rng.randint(0, 2 * m))]
            if rng.random() < .5:
                seen, f2 = set(), []
                for f in fl:
                    if (f[0], f[1]) not in seen:
                        seen.add((f[0], f[1]))
                        f2.append(f)
                fl = f2
            c.update(ns=ns, fl=fl)
            if rng.random() < .5:
                c["layout"] = [[rng.randint(0, 500), rng.randint(0, 500), rng.randint(1, 90), rng.randint(1, 90)] for _ in ns]
                c["way"] = [[[rng.randint(0, 99), rng.randint(0, 99)] for _ in range(rng.randint(1, 4))] for _ in fl]
            if rng.random() < .35:
                P = rng.sample(["proc1", "P 2", "id3", "ü<4>"], rng.randint(1, 3))
                c["pr"] = [rng.choice(P) for _ in ns]
                c["fpr"] = [rng.choice(P) if rng.random() < .2 else c["pr"][f[0]] for f in fl]
            c["att"] = [rng.choice([None] + [j for j in range(m) if ns[j][0] in ("task", "sub")]) if x[0] == "boundary" else None for x in ns]
            if how == "file" and rng.random() < .25 and "pr" not in c and not any(x[0] in ("boundary", "sub") for x in ns):
                c["how"] = "auto"
        yield c
        i += 1


def build_net(c):
    from pm4py.objects.petri_net.obj import PetriNet, Marking, InhibitorNet, ResetNet, ResetInhibitorNet
    from pm4py.objects.petri_net import properties as P
    from pm4py.objects.petri_net.utils.petri_utils import add_arc_from_to
    from pm4py.util import constants
    net = {"plain": PetriNet, "inh": InhibitorNet, "reset": ResetNet, "both": ResetInhibitorNet}[c["kind"]](c["name"])
    ps = [PetriNet.Place(p) for p in c["ps"]]
    ts = [PetriNet.Transition(n, l) for n, l in c["ts"]]
    for p in ps:
        net.places.add(p)
    for t in ts:
        net.transitions.add(t)
    ty = {"n": None, "inhibitor": P.INHIBITOR_ARC, "reset": P.RESET_ARC}
    for d, a, b, w, y in c["arcs"]:
        if d == "pt":
            add_arc_from_to(ps[a], ts[b], net, weight=w, type=ty[y])
        else:
            add_arc_from_to(ts[a], ps[b], net, weight=w)
    for t, dist, par, prio, wei in c.get("stoch", []):
        from pm4py.objects.random_variables.random_variable import RandomVariable
        v = RandomVariable()
        np_ = {"NORMAL": 2, "UNIFORM": 2, "LOGNORMAL": 3, "GAMMA": 3}.get(dist, 1)
        v.read_from_string(dist, None if dist == "IMMEDIATE" else ";".join(str(par + i) for i in range(np_)))
        v.set_priority(prio)
        v.set_weight(wei)
        ts[t].properties[constants.STOCHASTIC_DISTRIBUTION] = v
    for t, g, r, w in c.get("data", []):
        if g is not None:
            ts[t].properties[P.TRANS_GUARD] = g
        if r:
            ts[t].properties[P.READ_VARIABLE] = list(r)
        if w:
            ts[t].properties[P.WRITE_VARIABLE] = list(w)
    if "vars" in c:
        net.properties[P.VARIABLES] = [{"name": n, "type": y} for n, y in c["vars"]]
    for i, x, y, w, h in c.get("layout", []):
        (ps + ts)[i].properties[constants.LAYOUT_INFORMATION_PETRI] = ((x, y), (w, h))
    im, fm = Marking(), Marking()
    for p, n in c["im"]:
        im[ps[p]] = n
    for p, n in c["fm"]:
        fm[ps[p]] = n
    return net, im, fm


def canon_net(net, im, fm):
    from pm4py.objects.petri_net import properties as P
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.util import constants
    S = constants.STOCHASTIC_DISTRIBUTION
    L = constants.LAYOUT_INFORMATION_PETRI
    r = {"places": [[p.name] for p in net.places],
         "transitions": [[t.name, "silent" if t.label is None else "visible", t.label or ""] for t in net.transitions],
         "arcs": [["pt" if isinstance(a.source, PetriNet.Place) else "tp", a.source.name, a.target.name, str(a.weight), str(a.properties.get(P.ARCTYPE, "n")), type(a).__name__] for a in net.arcs],
         "im": [[p.name, str(n)] for p, n in im.items()], "fm": [[p.name, str(n)] for p, n in fm.items()],
         "stoch": [[t.name, str(v.get_distribution_type()), "" if v.get_distribution_type() == "IMMEDIATE" else str(v.get_distribution_parameters()), str(v.get_priority()), str(v.get_weight())]
                   for t in net.transitions if S in t.properties for v in [t.properties[S]]],
         "guards": [[t.name, t.properties[P.TRANS_GUARD]] for t in net.transitions if P.TRANS_GUARD in t.properties],
         "reads": [[t.name, v] for t in net.transitions for v in t.properties.get(P.READ_VARIABLE, [])],
         "writes": [[t.name, v] for t in net.transitions for v in t.properties.get(P.WRITE_VARIABLE, [])],
         "variables": [[v["name"], v["type"]] for v in net.properties.get(P.VARIABLES, [])],
         "layout": [[x.name] + [str(float(z)) for y in x.properties[L] for z in y] for x in list(net.places) + list(net.transitions) if L in x.properties]}
    # the arcs of the nodes agree with the arcs of the net
    for n in list(net.places) + list(net.transitions):
        if {a for a in net.arcs if a.source is n} != set(n.out_arcs) or {a for a in net.arcs if a.target is n} != set(n.in_arcs):
            r["arcs"].append(["inconsistent", n.name, "", "", "", ""])
    return {k: sorted(v) for k, v in r.items()}


def build_bpmn(c):
    from pm4py.objects.bpmn.obj import BPMN
    b = BPMN()
    D = {d.value: d for d in BPMN.Gateway.Direction}
    ns = []
    for i, (ty, name, d) in enumerate(c["ns"]):
        cl = {"start": BPMN.NormalStartEvent, "end": BPMN.NormalEndEvent, "task": BPMN.Task, "xor": BPMN.ExclusiveGateway, "and": BPMN.ParallelGateway, "or": BPMN.InclusiveGateway,
              "catch": BPMN.IntermediateCatchEvent, "throw": BPMN.NormalIntermediateThrowEvent, "boundary": BPMN.BoundaryEvent, "sub": BPMN.SubProcess}[ty]
        kw = {"process": c["pr"][i]} if "pr" in c else {}
        if ty in ("xor", "and", "or"):
            kw["gateway_direction"] = D[d]
        if c.get("att") and c["att"][i] is not None:
            kw["activity"] = "n%d" % c["att"][i]
        n = cl(id="n%d" % i, name=name, **kw)
        b.add_node(n)
        ns.append(n)
        if "layout" in c:
            l = b.get_layout().get(n)
            x, y, w, h = c["layout"][i]
            l.set_x(x), l.set_y(y), l.set_width(w), l.set_height(h)
    for i, (s, t, name) in enumerate(c["fl"]):
        f = BPMN.SequenceFlow(ns[s], ns[t], name=name, **({"process": c["fpr"][i]} if "fpr" in c else {}))
        b.add_flow(f)
        if "way" in c:
            b.get_layout().get(f).del_waypoints()
            for w in c["way"][i]:
                b.get_layout().get(f).add_waypoint(tuple(w))
    return b


def canon_bpmn(b, layout=True, own=True):
    # process identifiers get the prefix "id" in the file
    pid = lambda p: "id" + p if own else p
    from pm4py.objects.bpmn.obj import BPMN
    r = {"nodes": [], "flows": []}
    for n in b.get_nodes():
        g = isinstance(n, BPMN.Gateway)
        r["nodes"].append([n.get_id(), type(n).__name__, "" if g else n.get_name(), n.get_gateway_direction().value if g else "", pid(n.get_process()), str(n.get_activity()) if isinstance(n, BPMN.BoundaryEvent) else ""])
    r["flows"] = [[f.get_source().get_id(), f.get_target().get_id(), f.get_name(), pid(f.get_process())] for f in b.get_flows()]
    r["outs"] = [[n.get_id(), f.get_target().get_id()] for n in b.get_nodes() for f in n.get_out_arcs()]
    r["ins"] = [[n.get_id(), f.get_source().get_id()] for n in b.get_nodes() for f in n.get_in_arcs()]
    if layout:
        L = b.get_layout()
        r["bounds"] = [[n.get_id()] + [str(float(z)) for z in (L.get(n).get_x(), L.get(n).get_y(), L.get(n).get_width(), L.get(n).get_height())] for n in b.get_nodes()]
        r["ways"] = [[f.get_source().get_id(), f.get_target().get_id(), ";".join("%s,%s" % (float(x), float(y)) for x, y in L.get(f).get_waypoints())] for f in b.get_flows()]
    return {k: sorted(v) for k, v in r.items()}


def canon_dfg(d, sa, ea):
    return {"df": sorted([a, b, str(n)] for (a, b), n in d.items()), "sa": sorted([a, str(n)] for a, n in sa.items()), "ea": sorted([a, str(n)] for a, n in ea.items())}


def run(case):
    d = tempfile.mkdtemp(prefix="vf13")
    try:
        x, y = run0(case, d)
        return {"op": "rt", "kind": case["k"], "x": x, "y": y}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run0(case, d):
    import pm4py
    how = case["how"]
    enc = {"encoding": "iso-8859-1"} if how == "enc" else {}
    if case["k"] == "net":
        net, im, fm = build_net(case)
        x = canon_net(net, im, fm)
        f = os.path.join(d, "m.pnml")
        if how in ("file", "enc"):
            pm4py.write_pnml(net, im, fm, f, **enc)
            y = pm4py.read_pnml(f, **({} if how == "file" else enc))
        elif how == "prom5":
            from pm4py.objects.petri_net.exporter import exporter
            from pm4py.objects.petri_net.exporter.variants import pnml
            pnml.export_net(net, im, f, final_marking=fm, export_prom5=True)
            y = pm4py.read_pnml(f)
        elif how == "ser":
            y = pm4py.deserialize(pm4py.serialize(net, im, fm))
        else:
            from pm4py.objects.petri_net.exporter.variants import pnml
            from pm4py.objects.petri_net.importer.variants import pnml as imp
            y = imp.import_net_from_string(pnml.export_petri_as_string(net, im, fm))
        if canon_net(net, im, fm) != x:
            raise ValueError("the net changed while it was exported")
        return x, canon_net(*y)
    if case["k"] == "dfg":
        df = {(a, b): n for a, b, n in case["e"]}
        sa, ea = dict(case["sa"]), dict(case["ea"])
        f = os.path.join(d, "m.dfg")
        if how == "ser":
            y = pm4py.deserialize(pm4py.serialize(df, sa, ea))
        elif how != "string":
            pm4py.write_dfg(df, sa, ea, f, **enc)
            y = pm4py.read_dfg(f, **enc)
        else:
            from pm4py.objects.dfg.exporter.variants import classic as e
            from pm4py.objects.dfg.importer.variants import classic as i
            y = i.import_dfg_from_string(e.export_as_string(df, {e.Parameters.START_ACTIVITIES: sa, e.Parameters.END_ACTIVITIES: ea}))
        return canon_dfg(df, sa, ea), canon_dfg(*y)
    b = build_bpmn(case)
    lay = how != "auto"
    x = canon_bpmn(b, lay)
    f = os.path.join(d, "m.bpmn")
    if how == "string":
        from pm4py.objects.bpmn.exporter.variants import etree as e
        from pm4py.objects.bpmn.importer.variants import lxml as i
        y = i.import_from_string(e.get_xml_string(b))
    elif how == "ser":
        y = pm4py.deserialize(pm4py.serialize(b))
    else:
        pm4py.write_bpmn(b, f, auto_layout=(how == "auto"), **enc)
        y = pm4py.read_bpmn(f, **enc)
    return x, canon_bpmn(y, lay, False)


def nontrivial(case, evs):
    x = evs[0].get("x") if evs else None
    return bool(x) and sum(len(v) for v in x.values()) > 5
