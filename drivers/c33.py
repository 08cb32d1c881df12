"""C33: organisational mining."""
from vf import core, gens

MODULE = "TrC33"
RULE = "every log of resource words up to length 4 over two resources (enumerated by TLC) for the networks and random logs with resources, groups and intervals; event logs and dataframes (rows of different cases interleaved), default and custom columns; non-trivial: more than one connection (role, group, active resource)"
R = ["R1", "R2", "R3", "R 4"]
A = ["a", "b", "c", "d", "e"]
KEYS = {"a": "act", "t": "when", "r": "who", "v": "grp", "case": "case:nr", "s": "start"}
STD = {"a": "concept:name", "t": "time:timestamp", "r": "org:resource", "v": "org:group", "case": "case:concept:name", "s": "start_timestamp"}


def cases(rng, tier):
    ws = core.gen("GenWords", env={"K": "2", "N": "4", "M": "1"}) + core.gen("GenWords", env={"K": "2", "N": "3", "M": "2"})
    if tier != "quick":
        ws += core.gen("GenWords", env={"K": "3", "N": "3", "M": "2"}) + core.gen("GenWords", env={"K": "2", "N": "7", "M": "1"})
    for w in ws:
        k = rng.choice(["handover", "together", "sub", "sub"])
        l = [{"id": "c%d" % i, "ev": [{"a": "a", "t": 60 * i + 10 * j, "r": x, "v": "g"} for j, x in enumerate(c)]} for i, c in enumerate(w)]
        yield dict({"k": k, "log": l, "order": None, "form": rng.choice(["log", "df"]), "custom": False}, **extra(rng, k, l))
    n = 450 if tier == "quick" else 6000
    for i in range(n):
        k = rng.choice(["handover", "handover", "together", "sub", "sub", "similar", "network", "network", "roles", "roles", "diag", "diag", "profile", "profile", "profile", "load", "load"])
        res = R[:rng.randint(1, 4)]
        l = gens.rlog(rng, A[:rng.randint(2, 5)], rng.randint(1, 6), rng.randint(1, 7), resources=res, maxdt=rng.choice([5, 60 if k == "load" else 3000]))
        same = rng.random() < .3
        pref = {r: rng.choice(["g1", "g2", "g3"]) for r in res}
        used = set()
        for c in l:
            for j, e in enumerate(c["ev"]):
                e["v"] = rng.choice(res) if same else pref[e["r"]] if rng.random() < .7 else rng.choice(["g1", "g2", "g3"])
                if k == "roles" and rng.random() < .6:
                    e["r"] = res[ord(e["a"]) % len(res)]
                e["s"] = e["t"] - rng.choice([0, 1, 40])
        if k == "network":
            for c in l:
                t = c["ev"][0]["t"]
                for e in c["ev"]:
                    t = max(t, e["t"])
                    while t in used:
                        t += 1
                    used.add(t)
                    e["t"] = t
                    e["s"] = t
        if k == "load":                                 # no two intervals of a resource are equal
            iv = set()
            for c in l:
                t = 0
                for j, e in enumerate(c["ev"]):
                    e["t"] = max(e["t"], t)
                    if j == 0:
                        e["s"] = min(e["s"], e["t"])
                    while (e["r"], e["s"], e["t"]) in iv or (e["r"], t if j else e["t"], e["t"]) in iv:
                        e["t"] += 1
                    iv |= {(e["r"], e["s"], e["t"]), (e["r"], t if j else e["t"], e["t"])}
                    t = e["t"]
        if k not in ("profile", "load") or rng.random() < .5:
            for c in l:
                for e in c["ev"]:
                    e.pop("s")
        yield dict({"k": k, "log": l, "order": gens.interleaving(rng, l), "form": rng.choice(["log", "df"]), "custom": rng.random() < .3}, **extra(rng, k, l))


def extra(rng, k, l):
    if k == "handover":
        b = rng.choice([[0, 1], [0, 1], [1, 2], [1, 4], [1, 1]])
        return {"beta": b, "norm": b[1] < 4 and rng.random() < .25}
    if k == "sub":
        return {"n": rng.choice([2, 2, 3, 4]), "norm": rng.random() < .25}
    if k == "together":
        return {"norm": rng.random() < .25}
    if k == "network":
        c = lambda: rng.choice(["res", "grp", "act"])
        o = rng.choice([["case", "case"], ["case", "case"], ["res", "res"], ["res", "grp"], ["grp", "res"], ["act", "act"]])
        return {"outcol": o[0], "incol": o[1], "src": c(), "tgt": c(), "edge": c(), "ref": rng.choice(["_out", "_out", "_in"]), "perf": rng.random() < .5}
    if k == "roles":
        return {"thr": rng.choice([[13, 20], [13, 20], [1, 2], [1, 4], [7, 8]])}
    if k == "diag":
        rs = sorted({e["r"] for c in l for e in c["ev"]})
        if rng.random() < .5:
            return {}
        if rng.random() < .4:
            return {"groups": "roles"}
        return {"groups": {"k%d" % i: sorted(rng.sample(rs, rng.randint(1, len(rs)))) for i in range(rng.randint(1, 3))}}
    if k in ("profile", "load"):
        ts = sorted(e["t"] for c in l for e in c["ev"])
        a, b = sorted([rng.choice(ts), rng.choice(ts)])
        return {"t1": a + rng.choice([-1, 0, 0, 1]), "t2": b + rng.choice([0, 0, 1, 100]), "r1": rng.choice(R[:3]), "r2": rng.choice(R[:3]), "a": rng.choice(A[:3])}
    return {}


def run(case):
    import pm4py
    l, k = case["log"], case["k"]
    keys = KEYS if case["custom"] else STD
    kk = dict(keys)
    if case["form"] == "log":
        kk["case"] = keys["case"][5:]
        log = gens.to_eventlog(l, kk)
    else:
        log = gens.to_df(l, kk, case["order"])
    ev = {"l": [[[e["a"], e["r"], e["v"], e["t"], e.get("s", 0)] for e in c["ev"]] for c in l], "op": k}
    C, P = "case:" + kk["case"] if case["form"] == "log" else kk["case"], {}
    PK = {"pm4py:param:activity_key": kk["a"], "pm4py:param:timestamp_key": kk["t"], "pm4py:param:resource_key": kk["r"], "pm4py:param:group_key": kk["v"], "pm4py:param:case_id_key": kk["case"]}
    base = {"resource_key": kk["r"], "timestamp_key": kk["t"], "case_id_key": kk["case"]}
    if k in ("handover", "together", "sub", "similar"):
        if k == "handover":
            b = case["beta"]
            s = pm4py.discover_handover_of_work_network(log, beta=b[0] / b[1], **base)
            ev.update(bn=b[0], bd=b[1], maxlen=max(len(c["ev"]) for c in l))
        elif k == "together":
            s = pm4py.discover_working_together_network(log, **base)
        elif k == "sub":
            s = pm4py.discover_subcontracting_network(log, n=case["n"], **base)
            ev["n"] = case["n"]
        else:
            if len({e["a"] for c in l for e in c["ev"]}) < 2:
                return []
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = pm4py.discover_activity_based_resource_similarity(log, activity_key=kk["a"], **base)
            # near-zero correlations: floating point noise counts as zero
            sg = lambda x: 2 if x != x else 0 if abs(x) < 1e-9 else 1 if x > 0 else -1
            ev["net"] = sorted([x, y, 0 if v != v else int(round(1000 * v * v)), sg(v)] for (x, y), v in s.connections.items())
        if case.get("norm"):
            from pm4py.algo.organizational_mining.sna import algorithm as sna
            V = sna.Variants
            v = {("handover", "log"): V.HANDOVER_LOG, ("handover", "df"): V.HANDOVER_PANDAS, ("sub", "log"): V.SUBCONTRACTING_LOG, ("sub", "df"): V.SUBCONTRACTING_PANDAS,
                 ("together", "log"): V.WORKING_TOGETHER_LOG, ("together", "df"): V.WORKING_TOGETHER_PANDAS}[k, case["form"]]
            pp = dict(PK, metric_normalization=True)
            if k == "handover":
                pp["beta"] = b[0] / b[1]
            if k == "sub":
                pp["n"] = case["n"]
            ns = sna.apply(log, variant=v, parameters=pp)
            ev["norm"] = sorted([x, y, gens.frac(v)] for (x, y), v in ns.connections.items())
            from pm4py.algo.organizational_mining.sna import util as su
            g = su.sna_result_to_nx_graph(ns, parameters={"weight_threshold": 0.5})
            ev["graph"] = sorted(sorted(e) if not ns.is_directed else list(e) for e in g.edges)
        if k != "similar":
            ev["net"] = sorted([x, y, gens.frac(v)] for (x, y), v in s.connections.items())
        ev["directed"] = bool(s.is_directed)
        return ev
    if k == "network":
        col = {"case": "case:" + kk["case"] if case["form"] == "log" else kk["case"], "act": kk["a"], "res": kk["r"], "grp": kk["v"]}
        ev.update({x: case[x] for x in ("outcol", "incol", "src", "tgt", "edge", "ref", "perf")})
        ev["ids"] = [c["id"] for c in l]
        if case["form"] == "df" and not case["custom"]:
            d = pm4py.discover_network_analysis(log, out_column=col[case["outcol"]], in_column=col[case["incol"]], node_column_source=col[case["src"]], node_column_target=col[case["tgt"]],
                                                edge_column=col[case["edge"]], edge_reference=case["ref"], performance=case["perf"])
        else:
            from pm4py.algo.organizational_mining.network_analysis import algorithm as na
            P = na.dataframe.Parameters
            d = na.apply(log, parameters={P.OUT_COLUMN: col[case["outcol"]], P.IN_COLUMN: col[case["incol"]], P.NODE_COLUMN_SOURCE: col[case["src"]], P.NODE_COLUMN_TARGET: col[case["tgt"]],
                                          P.EDGE_COLUMN: col[case["edge"]], P.EDGE_REFERENCE: case["ref"], P.SORTING_COLUMN: kk["t"], P.TIMESTAMP_KEY: kk["t"], P.INCLUDE_PERFORMANCE: case["perf"]})
        num = lambda x: int(round(x))
        ev["edges"] = sorted([x, y, e, [num(z) for z in v] if case["perf"] else [num(v)]] for (x, y), m in d.items() for e, v in m.items())
        return ev
    if k == "roles":
        from pm4py.algo.organizational_mining.roles import algorithm as roles
        if case["thr"] == [13, 20]:
            rs = pm4py.discover_organizational_roles(log, activity_key=kk["a"], **base)
        else:
            rs = roles.apply(log, parameters={**PK, "roles_threshold_parameter": case["thr"][0] / case["thr"][1]})
        ev["thr"] = case["thr"]
        ev["roles"] = [[list(x.activities), sorted([a, int(b)] for a, b in x.originator_importance.items())] for x in rs]
        return ev
    if k == "diag":
        from pm4py.algo.organizational_mining.local_diagnostics import algorithm as ld
        G = case.get("groups")
        ev["groups"] = []
        if G == "roles":
            G = pm4py.discover_organizational_roles(log, activity_key=kk["a"], **base)
            ev["groups"] = [[str(i), sorted(x.originator_importance)] for i, x in enumerate(G)]
        elif G:
            ev["groups"] = sorted([g, x] for g, x in G.items())
        d = ld.apply_from_clustering_or_roles(log, G, parameters=PK) if G else ld.apply_from_group_attribute(log, parameters=PK)
        for x, y in (("focus", "group_relative_focus"), ("stake", "group_relative_stake"), ("coverage", "group_coverage")):
            ev[x] = sorted([g, z, gens.frac(v)] for g, m in d[y].items() for z, v in m.items())
        ev["contribution"] = sorted([g, z, a, int(v)] for g, m in d["group_member_contribution"].items() for z, q in m.items() for a, v in q.items())
        return ev
    from pm4py.algo.organizational_mining.resource_profiles import algorithm as rp
    interval = "s" in l[0]["ev"][0]
    p = dict(PK)
    if interval:
        p["pm4py:param:start_timestamp_key"] = kk["s"]
    f = lambda t: gens.ts(t).strftime("%Y-%m-%d %H:%M:%S")
    t1, t2, r1, r2, a = f(case["t1"]), f(case["t2"]), case["r1"], case["r2"], case["a"]
    inn = lambda t: case["t1"] <= t < case["t2"]
    if k == "load":
        ev.update(t1=case["t1"], t2=case["t2"], r1=r1, interval=interval, workload=gens.frac(rp.average_workload(log, t1, t2, r1, parameters=p)), multi=gens.frac(rp.multitasking(log, t1, t2, r1, parameters=p)))
        return ev
    minea = any(e["r"] == r1 and e["a"] == a and inn(e["t"]) for c in l for e in c["ev"])
    dc = any(inn(c["ev"][-1]["t"]) and any(e["r"] == r1 for e in c["ev"]) for c in l)
    ev.update(t1=case["t1"], t2=case["t2"], r1=r1, r2=r2, a=a, interval=interval, form=case["form"],
              distinct=int(rp.distinct_activities(log, t1, t2, r1, parameters=p)), frequency=gens.frac(rp.activity_frequency(log, t1, t2, r1, a, parameters=p)),
              completions=int(rp.activity_completions(log, t1, t2, r1, parameters=p)), cases=int(rp.case_completions(log, t1, t2, r1, parameters=p)),
              fraction=gens.frac(rp.fraction_case_completions(log, t1, t2, r1, parameters=p)),
              adur=gens.frac(rp.average_duration_activity(log, t1, t2, r1, a, parameters=p)) if minea else [0, 1],
              cdur=gens.frac(rp.average_case_duration(log, t1, t2, r1, parameters=p)) if dc else [0, 1],
              interaction=int(rp.interaction_two_resources(log, t1, t2, r1, r2, parameters=p)),
              social=gens.frac(rp.social_position(log, t1, t2, r1, parameters=p)))
    return ev


def nontrivial(case, evs):
    if not evs or evs[0]["op"] == "exc":
        return False
    e = evs[0]
    k = e["op"]
    return len(e["net"]) > 1 if "net" in e else len(e["edges"]) > 1 if k == "network" else len(e["roles"]) > 1 if k == "roles" else len(e["coverage"]) > 1 if k == "diag" else e["workload"][0] > 0 if k == "load" else e["completions"] > 0 and e["social"] != [1, 1]
