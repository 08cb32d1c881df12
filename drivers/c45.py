"""C45: heuristics miner (classic and ++), heuristics net to Petri net."""
from vf import gens

MODULE = "TrC45"
OWN_NAMES = 0.2
RULE = "logs of random words, play-outs of process trees, logs with loops of length one and two and interval logs, and directly-follows graphs, with varied thresholds, as event logs and dataframes, through the heuristics miner, the heuristics miner ++ and the conversion to a Petri net; non-trivial: an activity with two successors or two predecessors in the dependency graph"
NAMES = ["a", "B b", "c", "d", "e", "f"]
TH = [[1, 2], [1, 2], [0, 1], [1, 4], [3, 4], [7, 8], [13, 16], [-1, 2], [-1, 1], [15, 16]]
AND = [[13, 20], [13, 20], [0, 1], [1, 4], [1, 2], [1, 1], [3, 16], [2, 1]]
CL = [[1, 20], [1, 20], [0, 1], [0, 1], [1, 4], [1, 2], [3, 8]]
HEAP = "3g"


def cases(rng, tier):
    N = 900 if tier == "quick" else 8000
    for j in range(N):
        n = rng.choice([1, 2, 3, 4, 4, 5, 5, 5])
        ids = list(range(1, n + 1))
        x = rng.random()
        if x < .3 and n > 2:
            # concurrent activities between a start and an end, in subsets
            q = rng.sample(ids, n)
            ws = []
            for _ in range(rng.randint(3, 9)):
                m = [a for a in q[1:-1] if rng.random() < .85]
                rng.shuffle(m)
                ws.append(([q[0]] if rng.random() < .9 else []) + m + ([q[-1]] if rng.random() < .9 else []) or [q[0]])
        elif x < .45:
            ws = [[rng.choice(ids) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 6))]
        elif x < .7:
            t = gens.rtree(rng, [str(i) for i in ids], n)
            ws = [[int(a) for a in y[:9]] for y in (gens.words_of_tree(rng, t) for _ in range(rng.choice([2, 5, 9]))) if y] or [[1]]
        else:
            a = rng.choice(ids)
            b = a if rng.random() < .25 else rng.choice(ids)
            ws = []
            for _ in range(rng.randint(1, 5)):
                w = [rng.choice(ids) for _ in range(rng.randint(0, 2))] + [a, b] * rng.randint(0, 3) + [a] * rng.randint(0, 1) + [rng.choice(ids) for _ in range(rng.randint(0, 2))]
                ws.append(w or [a])
        ws = [w for w in ws for _ in range(rng.choice([1, 1, 1, 2, 5]))][:14]
        rng.shuffle(ws)
        low = rng.random() < .4
        c = {"names": sorted(rng.sample(NAMES, n)), "how": rng.choice(["log", "log", "df", "df", "plus", "dfg"]), "form": rng.choice(["log", "df"]),
             "dep": rng.choice([[0, 1], [-1, 2], [1, 4], [1, 2]] if low else TH), "and": rng.choice([[13, 20], [0, 1], [1, 4], [3, 8], [1, 2]] if low else AND), "l2": rng.choice([[1, 2], [1, 2], [0, 1], [3, 4], [2, 1]]), "clean": rng.choice(CL), "minact": rng.choice([1, 1, 1, 2, 3]), "mindfg": rng.choice([1, 1, 1, 2, 3]),
             "perf": rng.random() < .25, "simple": rng.random() < .4, "out": rng.choice(["heu", "net"])}
        if any(w[i] == w[i + 1] == w[i + 2] for w in ws for i in range(len(w) - 2)) and rng.random() < .5:
            # self loops below the threshold
            c.update(dep=rng.choice([[3, 4], [3, 4], [7, 8], [15, 16]]), l2=[1, 2], how=rng.choice(["log", "df"]), minact=1, mindfg=1)
        log = []
        for i, w in enumerate(ws):
            s = t = rng.randint(0, 50)
            ev = []
            for a in w:
                if c["how"] == "plus":
                    s += rng.choice([0, 0, 1, 5, 20])
                    t = max(t + 1, s + rng.choice([0, 0, 3, 10, 30]))
                    ev.append({"a": a, "s": s, "t": t})
                else:
                    t += rng.randint(1, 40)
                    ev.append({"a": a, "t": t})
            log.append({"id": "c%d" % i, "ev": ev})
        c["log"] = log
        if c["how"] == "dfg":
            e = {}
            st = en = None
            if rng.random() < .5:
                for w in ws:
                    for p in zip(w, w[1:]):
                        e[p] = e.get(p, 0) + 1
            elif n > 3 and rng.random() < .7:
                # some couples of the middle activities are concurrent: overlapping bindings
                q = rng.sample(ids, n)
                for m in q[1:-1]:
                    e[(q[0], m)], e[(m, q[-1])] = rng.choice([3, 4, 8]), rng.choice([3, 4, 8])
                for i in range(1, n - 1):
                    for k in range(i + 1, n - 1):
                        if rng.random() < .6:
                            e[(q[i], q[k])] = e[(q[k], q[i])] = rng.choice([2, 4, 6])
                if rng.random() < .3:
                    e[(rng.choice(ids), rng.choice(ids))] = 5
                c.update(dep=rng.choice([[1, 4], [1, 2]]), clean=[0, 1], **{"and": rng.choice([[1, 4], [3, 8], [1, 2], [13, 20]])}, mindfg=1, minact=1)
                st, en = [[q[0], 1]], [[q[-1], 1]]
            else:
                for _ in range(rng.randint(1, 2 * n + 1)):
                    e[(rng.choice(ids), rng.choice(ids))] = rng.choice([1, 2, 3, 5, 8, 40])
            if not e:
                continue
            c["dfg"] = [[a, b, v] for (a, b), v in e.items()]
            rng.shuffle(c["dfg"])
            c["sa"] = st or [[a, 1] for a in ids if rng.random() < .3] or [[1, 1]]
            c["ea"] = en or [[a, 1] for a in ids if rng.random() < .3] or [[n, 1]]
            c["occ"] = [[a, rng.randint(1, 6)] for a in ids]
            c["perf"] = False
        c["order"] = gens.interleaving(rng, log)
        yield c


def run(c):
    import pm4py
    from pm4py.algo.discovery.heuristics import algorithm as H
    from pm4py.algo.discovery.heuristics.variants import classic, plusplus
    from pm4py.objects.conversion.heuristics_net import converter as conv
    nm = c["names"]
    ix = {s: i + 1 for i, s in enumerate(nm)}
    P = classic.Parameters
    fl = lambda q: q[0] / q[1]
    how = c["how"]
    p = {k: c[k] for k in ("dep", "and", "l2", "clean", "minact", "mindfg")}
    log = [{"id": x["id"], "ev": [dict(e, a=nm[e["a"] - 1]) for e in x["ev"]]} for x in c["log"]]
    par = {P.DEPENDENCY_THRESH: fl(c["dep"]), P.AND_MEASURE_THRESH: fl(c["and"]), P.MIN_ACT_COUNT: c["minact"], P.MIN_DFG_OCCURRENCES: c["mindfg"], P.LOOP_LENGTH_TWO_THRESH: fl(c["l2"]),
           P.DFG_PRE_CLEANING_NOISE_THRESH: fl(c["clean"]), P.HEU_NET_DECORATION: "performance" if c["perf"] else "frequency"}
    net = h = None
    want = c["out"] == "net"
    if how == "dfg":
        d = lambda k: {nm[a - 1]: v for a, v in c[k]}
        f = classic.apply_dfg if want else classic.apply_heu_dfg
        x = f({(nm[a - 1], nm[b - 1]): v for a, b, v in c["dfg"]}, activities=list(nm), activities_occurrences=d("occ"), start_activities=d("sa"), end_activities=d("ea"), parameters=par)
    else:
        df = (how == "df") if how != "plus" else c["form"] == "df"
        L = gens.to_df(log, None, c["order"]) if df else gens.to_eventlog(log)
        par.update(gens.kp(L))
        if how == "plus":
            Q = plusplus.Parameters
            par = {**{Q[k.name]: v for k, v in par.items() if not isinstance(k, str) and k.name in Q.__members__}, **gens.kp(L)}
            if want:
                x = H.apply(L, variant=H.Variants.PLUSPLUS, parameters=par) if c["simple"] else (plusplus.apply_pandas if df else plusplus.apply)(L, parameters=par)
            else:
                x = H.apply_heu(L, variant=H.Variants.PLUSPLUS, parameters=par) if c["simple"] else (plusplus.apply_heu_pandas if df else plusplus.apply_heu)(L, parameters=par)
        elif c["simple"] and want:
            # the simplified call has no thresholds on counts
            p.update(minact=1, mindfg=1, clean=[1, 20])
            x = pm4py.discover_petri_net_heuristics(L, dependency_threshold=fl(c["dep"]), and_threshold=fl(c["and"]), loop_two_threshold=fl(c["l2"]), **gens.kw(L))
        elif c["simple"]:
            p.update(clean=[1, 20])
            x = pm4py.discover_heuristics_net(L, dependency_threshold=fl(c["dep"]), and_threshold=fl(c["and"]), loop_two_threshold=fl(c["l2"]), **gens.kw(L), min_act_count=c["minact"], min_dfg_occurrences=c["mindfg"],
                                              decoration="performance" if c["perf"] else "frequency")
        elif want:
            x = H.apply(L, parameters=par)
        else:
            x = H.apply_heu(L, parameters=par)
    r = dict(op=c["out"], how=how, names=nm, p=p, perf=c["perf"], ev=[[{"a": e["a"], "s": e.get("s", e["t"]), "t": e["t"]} for e in y["ev"]] for y in c["log"]])
    if how == "dfg":
        r.update(dfg=c["dfg"], occ=c["occ"], sa=c["sa"], ea=c["ea"])
    if want:
        net, im, fm = x
        r.update(net=gens.net_from_pm(net, im, fm), labs=[t.label for t in net.transitions if t.label is not None])
        return r
    num = lambda v: gens.frac(float(v))
    r.update(nodes=[[ix[a], int(v.node_occ)] for a, v in x.nodes.items()], dep=[[ix[a], ix[b], num(v)] for a, y in x.dependency_matrix.items() for b, v in y.items()],
             starts=[ix[a] for a in x.start_activities[0]], ends=[ix[a] for a in x.end_activities[0]], out=[], inc=[], rep=[], ao=[], ai=[])
    assert all(a == v.node_name for a, v in x.nodes.items())
    for a, v in x.nodes.items():
        for w, es in v.output_connections.items():
            assert x.nodes[w.node_name] is w and all(e.start_node is v and e.end_node is w for e in es)
            r["out"] += [[ix[a], ix[w.node_name], num(e.dependency_value), int(e.dfg_value)] for e in es]
            r["rep"] += [[ix[a], ix[w.node_name], num(e.repr_value)] for e in es]
        for w, es in v.input_connections.items():
            assert x.nodes[w.node_name] is w
            r["inc"] += [[ix[w.node_name], ix[a], num(e.dependency_value)] for e in es]
        r["ao"] += [[ix[a], ix[m], ix[n], num(z)] for m, y in v.and_measures_out.items() for n, z in y.items()]
        r["ai"] += [[ix[a], ix[m], ix[n], num(z)] for m, y in v.and_measures_in.items() for n, z in y.items()]
    return r


def nontrivial(c, evs):
    e = evs[0]
    if e["op"] == "heu":
        return len({y[0] for y in e["out"]}) < len(e["out"])
    return e["op"] == "net" and any(sum(1 for z in t["pre"] if z) + sum(1 for z in t["post"] if z) > 2 for t in e["net"]["t"]) or e["op"] == "net" and len(e["net"]["t"]) > 4
