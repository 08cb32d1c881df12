"""C38: alignments with directly-follows graphs, process trees and other logs; tables, parallel net alignments."""
from vf import core, gens
from drivers.c02 import LABELS
from drivers import c05

MODULE = "TrC38"
OWN_NAMES = 0.2
RULE = "random DFGs (of random words, plus extra arcs), trees, logs and nets x fitting, mutated and random traces, standard and custom costs, event logs and dataframes, serial and parallel; non-trivial: at least one deviation and two cases"
L2 = LABELS + ["x"]
CASE_TIMEOUT = 90


def cases(rng, tier):
    n = 700 if tier == "quick" else 6000
    mp = 6 if tier == "quick" else 40
    k = 0
    while k < n:
        x = rng.choice(["dfg", "dfg", "project", "tree", "tree", "tree", "edit", "edit", "net", "net", "approx"])
        df = rng.random() < .4
        y = {"k": x, "df": df, "api": rng.choice(["simple", "algo"]), "mp": False}
        t = gens.rtree(rng, LABELS, rng.randint(1, 6), dup=rng.random() < .3)
        if x in ("dfg", "project"):
            base = [[rng.choice(LABELS) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))] if rng.random() < .6 else [w for w in (gens.words_of_tree(rng, t, 6) for _ in range(3)) if w] or [["a"]]
            base = [w[:6] for w in base]
            y["sa"] = sorted(set(w[0] for w in base))
            y["ea"] = sorted(set(w[-1] for w in base))
            d = set((w[i], w[i + 1]) for w in base for i in range(len(w) - 1))
            acts = sorted(set(a for w in base for a in w))
            if rng.random() < .4:
                d.add((rng.choice(acts), rng.choice(acts)))
            y["d"] = sorted(map(list, d))
            ws = []
            for _ in range(rng.randint(1, 4)):
                w = list(rng.choice(base))
                if rng.random() < .6:
                    w = gens.mutate_word(rng, w, L2, .6)
                ws.append(w if rng.random() < .8 else [rng.choice(L2) for _ in range(rng.randint(0, 5))])
            if x == "project":
                y["variant"] = rng.random() < .3
                if not d:
                    y["variant"] = True
            y["cost"] = {"lc": {a: rng.randint(1, 9) for a in L2}, "mc": {a: rng.randint(1, 9) for a in acts}} if x == "dfg" and rng.random() < .25 else None
        elif x == "edit":
            y["ws2"] = [[rng.choice(LABELS[:3]) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 6))] for _ in range(rng.randint(1, 4))]
            ws = [gens.mutate_word(rng, list(rng.choice(y["ws2"])), L2, .6) if rng.random() < .7 else [rng.choice(L2) for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(1, 4))]
            y["anti"] = rng.random() < .3
        elif x in ("tree", "approx"):
            if x == "approx":
                t = gens.rtree(rng, LABELS, rng.randint(1, 5), dup=False, ops=["seq", "xor", "par", "loop"])
            t = binary(t)
            y["t"] = t
            net = gens.net_of_tree(t)
            if gens.reach(net, 150) is None:
                continue
            ws = c05.rand_words(rng, net, t, rng.randint(1, 4), 6)
            y["tl"], y["th"] = rng.randint(1, 3), rng.randint(1, 2)
            if x == "tree" and mp and rng.random() < .05:
                y["mp"] = True
                mp -= 1
        else:
            net, t = c05.rand_net(rng)
            if net is None or not gens.final_reachable(net, 80):
                continue
            y["net"] = net
            ws = c05.rand_words(rng, net, t, rng.randint(1, 4), 6)
            y["how"] = rng.choice(["table", "table", "vlist", "vdict", "string", "variant"])
            if y["how"] == "string" and not any(net["fm"]):   # PNML does not keep an empty final marking
                y["how"] = "vlist"
            y["v"] = rng.choice([v for v in c05.VARIANTS if v != c05.TWEAKED])
            if x == "net" and mp and rng.random() < .06:
                y["mp"], y["how"] = True, "log"
                mp -= 1
        ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 2))]
        if df or x in ("project", "approx"):
            ws = [w for w in ws if w] or [["a"]]
        rng.shuffle(ws)
        y["ws"] = ws
        y["ids"] = rng.sample(range(10, 99), len(ws))
        k += 1
        yield y


def loop_in_loop(t, inl=False):
    return t[0] not in ("act", "tau") and (inl and t[0] == "loop" or any(loop_in_loop(x, inl or t[0] == "loop") for x in t[1]))


def binary(t):
    """the same tree with loops of two children (further children become a choice)"""
    if t[0] in ("act", "tau"):
        return t
    k = [binary(x) for x in t[1]]
    return [t[0], [k[0], ["xor", k[1:]]] if t[0] == "loop" and len(k) > 2 else k]


def pr(x):
    return "" if x is None or x == ">>" else x


def run(c):
    import pm4py
    from pm4py.algo.conformance.alignments.petri_net import algorithm as al
    k = c["k"]
    log = gens.word_log(c["ws"])
    for y, i in zip(log, c["ids"]):
        y["id"] = "c%d" % i
    df = c["df"] and k not in ("approx", "project")
    ws, ids = c["ws"], [y["id"] for y in log]
    if df:
        obj = gens.to_df(log, order=gens.time_order(log))
        if not (k == "edit" or k == "net" and c["how"] == "table"):   # results in the order of the case identifiers
            q = sorted(zip(ids, ws))
            ws, ids = [y[1] for y in q], [y[0] for y in q]
    else:
        obj = gens.to_eventlog(log)
    if k in ("dfg", "project"):
        d = {tuple(p): 1 + i for i, p in enumerate(c["d"])}
        sa, ea = {a: 1 for a in c["sa"]}, {a: 2 for a in c["ea"]}
        acts = sorted(set(c["sa"]) | set(c["ea"]) | set(a for p in c["d"] for a in p))
        g = {"sa": c["sa"], "ea": c["ea"], "df": c["d"]}
        allacts = sorted(set(L2) | set(acts))
    if k == "dfg":
        from pm4py.algo.conformance.alignments.dfg import algorithm as da
        par, unit = gens.kp(obj), 10000
        cost = {"lc": {a: 10000 for a in allacts}, "mc": {a: 10000 for a in acts}, "sc": {a: 0 for a in acts}}
        if c["cost"]:
            cost, unit = dict(c["cost"], sc={a: 0 for a in acts}), 1
            V = da.Variants.CLASSIC.value.Parameters
            par = {**par, V.LOG_MOVE_COST_FUNCTION: cost["lc"], V.MODEL_MOVE_COST_FUNCTION: cost["mc"], V.SYNC_COST_FUNCTION: cost["sc"]}
        ev = {"op": "dfg", "g": g, "c": cost, "unit": unit, "ws": ws, "exact": not c["cost"] or "fixed" in c}
        if c["api"] == "simple" and not c["cost"]:
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, d, sa, ea, **gens.kw(obj)))
        elif df or c["cost"] or len(ws) % 2:
            r, x = core.attempt(lambda: da.apply(obj, d, sa, ea, parameters=par))
        else:
            r, x = core.attempt(lambda: [da.apply(t, d, sa, ea, parameters=par) for t in obj])
        if x:
            return {"op": "exc", "exc": x}
        ev["d"] = [dict({"mv": [[pr(a), pr(b)] for a, b in y["alignment"]], "cost": y["cost"]}, **({"f": gens.frac(y["fitness"]), "bwc": y["bwc"]} if "fitness" in y else {})) for y in r]
        return ev
    if k == "project":
        ev = {"op": "project", "g": g, "c": {"lc": {a: 1 for a in allacts}, "mc": {a: 1 for a in acts}, "sc": {a: 0 for a in acts}}}
        if c["variant"]:
            from pm4py.algo.conformance.alignments.edit_distance.variants import edit_distance as ed
            w = c["sa"] + [p[1] for p in c["d"]]
            ev["g"] = {"sa": w, "ea": [], "df": []}
            r, x = core.attempt(lambda: ed.project_log_on_variant(obj, w, parameters=gens.kp(obj)))
        else:
            from pm4py.algo.conformance.alignments.dfg.variants import classic
            r, x = core.attempt(lambda: classic.project_log_on_dfg(obj, d, sa, ea, parameters=gens.kp(obj)))
        if x:
            return {"op": "exc", "exc": x}
        ev["e"] = [[[e["a"], e["t"]] for e in y["ev"]] for y in log]
        ev["p"] = [[[e["act" if gens.KEYED else "concept:name"], gens.secs(e["when" if gens.KEYED else "time:timestamp"]), e["@@is_conforming"]] for e in t] for t in r]
        ev["orig"] = [t.attributes["@@original_trace"].split(",") for t in r]
        return ev
    if k == "edit":
        obj2 = gens.to_eventlog(gens.word_log(c["ws2"]))
        if c["df"] and df and all(c["ws2"]) and len(c["ws2"]) % 2:
            obj2 = gens.to_df(gens.word_log(c["ws2"]))
        if c["api"] == "simple" and not c["anti"]:
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, obj2, **gens.kw(obj)))
        else:
            from pm4py.algo.conformance.alignments.edit_distance import algorithm as ea_
            r, x = core.attempt(lambda: ea_.apply(obj, obj2, parameters={**gens.kp(obj), "perform_anti_alignment": c["anti"]}))
        if x:
            return {"op": "exc", "exc": x}
        return {"op": "edit", "ws": ws if not df else [y for y in order_of(obj, log)], "ws2": c["ws2"], "anti": c["anti"], "d": [{"mv": [[pr(a), pr(b)] for a, b in y["alignment"]], "cost": y["cost"], "bwc": y["bwc"], "f": gens.frac(y["fitness"])} for y in r]}
    if k in ("tree", "approx"):
        from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt as sg
        pt = gens.tree_to_pm(c["t"])
        ev = {"op": "tree", "net": gens.net_of_tree(c["t"]), "ws": ws, "approx": k == "approx" or "fixed" not in c and loop_in_loop(c["t"])}
        if k == "approx":
            from pm4py.algo.conformance.alignments.process_tree.variants.approximated import matrix_lp as ml
            r, x = core.attempt(lambda: ml.apply(obj, pt, parameters={**gens.kp(obj), ml.Parameters.MAX_TRACE_LENGTH: c["tl"], ml.Parameters.MAX_PROCESS_TREE_HEIGHT: c["th"]}))
            if x:
                return {"op": "exc", "exc": x}
            if any(y is None for y in r):
                raise core.MachineryError("no approximated alignment")
            ev["d"] = [{"mv": [[pr(a), pr(b)] for a, b in y["alignment"] if pr(a) or pr(b)], "cost": y["cost"]} for y in r]
            return ev
        if c["mp"]:
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, pt, multi_processing=True, cores=2, **gens.kw(obj)))
        elif c["api"] == "simple" or df:
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, pt, **gens.kw(obj)))
        else:
            r, x = core.attempt(lambda: sg.apply_from_variants_list([tuple(w) for w in ws], pt))
        if x:
            return {"op": "exc", "exc": x}
        ev["d"] = [{"mv": [[pr(a), pr(b if b == ">>" else b.label)] for a, b in y["alignment"] if not (pr(a) == "" and b.label is None)], "cost": y["cost"], "f": gens.frac(y["fitness"])} for y in r]
        return ev
    pn, im, fm, ps, ts = gens.net_to_pm(c["net"])
    ev = {"op": "net", "net": c["net"], "ws": ws, "ids": ids}
    var = getattr(al.Variants, c["v"])
    if c["how"] in ("table", "log"):
        if c["how"] == "table":
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, pn, im, fm, variant_str=var, return_diagnostics_dataframe=True, **gens.kw(obj)))
        else:
            r, x = core.attempt(lambda: pm4py.conformance_diagnostics_alignments(obj, pn, im, fm, variant_str=var, multi_processing=True, cores=2, **gens.kw(obj)))
        if x:
            return {"op": "exc", "exc": x}
        if c["how"] == "table":
            ev["d"] = [{"id": str(y["case_id"]), "cost": int(y["cost"]) // 10000, "f": gens.frac(y["fitness"]), "fit": bool(y["is_fit"])} for _, y in r.iterrows()]
            if df:
                q = {y["id"]: y for y in ev["d"]}
                if len(q) == len(ev["d"]) == len(ids) and set(q) == set(ids):
                    ev["d"] = [q[i] for i in ids]
        else:
            ev["d"] = [{"cost": int(y["cost"]) // 10000, "f": gens.frac(y["fitness"])} for y in r]
        return ev
    M = var.value
    uniq = [list(t) for t in sorted(set(map(tuple, c["ws"])))]
    uniq = [w for w in uniq if w] or [["a"]]
    keys = [tuple(w) for w in uniq]

    def go():
        if c["how"] == "vlist":
            return M.apply_from_variants_list([(y, 1) for y in keys], pn, im, fm)
        if c["how"] == "vdict" and hasattr(M, "apply_from_variants_dictionary"):
            return M.apply_from_variants_dictionary({y: 1 for y in keys}, pn, im, fm)
        if c["how"] == "string":
            from pm4py.objects.petri_net.exporter.variants import pnml
            return M.apply_from_variants_list_petri_string([(y, 1) for y in keys], pnml.export_petri_as_string(pn, im, fm))
        return {y: M.apply_from_variant(y, pn, im, fm) for y in keys}
    r, x = core.attempt(go)
    if x:
        return {"op": "exc", "exc": x}
    if set(r) != set(keys):
        raise core.MachineryError("variants %r" % list(r))
    ev["ws"] = uniq
    ev["d"] = [{"cost": int(r[y]["cost"]) // 10000} for y in keys]
    return ev


def order_of(obj, log):
    """words of the cases of a dataframe converted to an event log"""
    d = {y["id"]: [e["a"] for e in y["ev"]] for y in log}
    return [d[i] for i in dict.fromkeys(obj["CASE" if gens.KEYED else "case:concept:name"])]


def nontrivial(c, evs):
    return len(c["ws"]) > 1 and any(e["op"] not in ("exc", "project") and any(y["cost"] >= 1 for y in e["d"]) or e["op"] == "project" for e in evs)


def signature(case, ev, clause):
    return case.get("fixed") or case["k"] + "/" + core.sha(case)
