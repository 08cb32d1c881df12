"""C21: streaming conformance checking (token replay, footprints, temporal profile), after every event."""
from vf import core, gens
from drivers import c05, c07
from drivers.c02 import LABELS

MODULE = "TrC21"
RULE = "random interleavings of the events of up to four cases against nets (trees, unfenced, perturbed, weighted, state machines), footprint relations and temporal profiles, with cases closed in between, observed after every event; non-trivial: both deviating and conforming cases"
MC = [dict(module="MCStream", env={"NEVENTS": "5"})]


def inter(rng, words, ids):
    """interleave the words (continued after the end of a case, sometimes reopened), closing some of the cases"""
    pos = [0] * len(words)
    steps = []
    live = [i for i, w in enumerate(words) if w]
    while live:
        i = rng.choice(live)
        steps.append(["e", ids[i], words[i][pos[i]]])
        pos[i] += 1
        if pos[i] == len(words[i]):
            live.remove(i)
            if rng.random() < .7:
                steps.append(["x", ids[i]])
                if rng.random() < .1:
                    live.append(i)
                    pos[i] = 0
        elif rng.random() < .03:
            steps.append(["x", ids[i]])
    if rng.random() < .2:
        steps.append(["all"])
    return steps[:30]


def cases(rng, tier):
    n = 900 if tier == "quick" else 6000
    while n:
        ids = rng.sample(["1", "2", "c3", "it's"], rng.randint(1, 4)) if rng.random() < .7 else rng.sample([1, 2, 3, 44], rng.randint(1, 4))
        c = {"keys": rng.random() < .2, "ids": ids, "k": rng.choice(["tbr"] * 6 + ["fp"] * 3 + ["temp"] * 3), "broken": rng.random() < .1}
        if c["k"] == "tbr":
            if rng.random() < .45:
                t = gens.rtree(rng, LABELS + ["e", "f"], rng.randint(1, 7), ops=["seq", "xor", "loop"], tau=.3)
                net = gens.net_of_tree(t)
                if rng.random() < .5:
                    net = gens.unfence(rng, net, .5)
            else:
                net, t = c05.rand_net(rng)
            if net is None or gens.reach(net, 60) is None or c07.silent_pump(net) or not sum(net["im"]) or not sum(net["fm"]):
                continue
            ws = c05.rand_words(rng, net, t, len(ids))
            c.update(net=net, steps=inter(rng, ws, ids), dict=rng.choice(["def", "classic"]))
        elif c["k"] == "fp":
            L = ["a", "b", "c", "d e", "it's"]
            acts = rng.sample(L, rng.randint(1, 4))
            prs = [[a, b] for a in acts for b in acts if rng.random() < .5]
            c["fp"] = {"acts": acts, "starts": [a for a in acts if rng.random() < .6], "ends": [a for a in acts if rng.random() < .6],
                       "seq": [p for p in prs if [p[1], p[0]] not in prs], "par": [p for p in prs if [p[1], p[0]] in prs]}
            ws = []
            for _ in ids:
                w = []
                while len(w) < 6:
                    nx = [b for a, b in prs if w and a == w[-1]] if w else c["fp"]["starts"]
                    if not nx or rng.random() < .15:
                        nx = L
                    w.append(rng.choice(nx))
                    if rng.random() < .2:
                        break
                ws.append(w)
            c["steps"] = inter(rng, ws, ids)
        else:
            L = ["a", "b", "c"]
            c["prof"] = [[a, b, rng.randint(0, 40), rng.choice([0, 1, 2, 5, 8])] for a in L for b in L if rng.random() < .6]
            c["zeta"] = rng.choice([[6, 1], [1, 1], [1, 2], [0, 1], [2, 1], None])
            c["start"] = rng.random() < .4
            t = 0
            c["steps"] = []
            for _ in range(rng.randint(1, 16)):
                t += rng.choice([0, 1, 3, 10, 20, -4])
                s = t - rng.randint(0, 12) if c["start"] else t
                c["steps"].append(["e", rng.choice(ids), rng.choice(L), s + 100, t + 100])
        n -= 1
        yield c


def run(case):
    import logging
    from pm4py.objects.log.obj import Event
    logging.disable(logging.CRITICAL)
    ak, ck, tk = ("act", "cid", "when") if case["keys"] else ("concept:name", "case:concept:name", "time:timestamp")
    par = {"pm4py:param:activity_key": ak, "pm4py:param:case_id_key": ck, "pm4py:param:timestamp_key": tk} if case["keys"] else {}
    ids = {str(c): i + 1 for i, c in enumerate(case["ids"])}
    if case["k"] == "tbr":
        return tbr(case, par, ak, ck, ids)
    if case["k"] == "fp":
        return fprint(case, par, ak, ck, ids)
    return temp(case, par, ak, ck, tk, ids)


def junk(case, algo, ak, ck):
    if case["broken"]:
        algo.receive({ak: "a"})
        algo.receive({ck: case["ids"][0]})


def tbr(case, par, ak, ck, ids):
    from pm4py.streaming.algo.conformance.tbr import algorithm
    from pm4py.streaming.util.dictio import generator
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    if case["dict"] == "classic":
        par["dict_variant"] = generator.Variants.CLASSIC
    algo = algorithm.apply(pn, im, fm, parameters=par)
    open_ = []
    steps = []
    for s in case["steps"]:
        r = {"o": s[0]}
        if s[0] == "e":
            r.update(c=ids[str(s[1])], a=s[2])
            algo.receive({ak: s[2], ck: s[1]})
            junk(case, algo, ak, ck)
        elif s[0] == "x":
            r["c"] = ids[str(s[1])]
            x = algo.terminate(s[1])
            r["r"] = [] if x is None else [gens.mvec(x["marking"], ps), x["missing"], x["remaining"], bool(x["is_fit"])]
        else:
            algo.terminate_all()
        d = algo.get()
        st = []
        for rec in d.to_dict("records"):
            q = algo.get_status([c for c in case["ids"] if str(c) == rec["case"]][0])
            st.append([ids[rec["case"]], gens.mvec(q["marking"], ps), q["missing"], rec["missing"], bool(rec["is_fit"])])
        r["st"] = sorted(st)
        steps.append(r)
    return {"op": "tbr", "net": net, "steps": steps, "n": len(ids)}


def fprint(case, par, ak, ck, ids):
    from pm4py.streaming.algo.conformance.footprints import algorithm
    f = case["fp"]
    fp = {"activities": set(f["acts"]), "start_activities": set(f["starts"]), "end_activities": set(f["ends"]),
          "sequence": set(map(tuple, f["seq"])), "parallel": set(map(tuple, f["par"]))}
    algo = algorithm.apply(fp, parameters=par)
    steps = []
    for s in case["steps"]:
        r = {"o": s[0]}
        if s[0] == "e":
            r.update(c=ids[str(s[1])], a=s[2])
            algo.receive({ak: s[2], ck: s[1]})
            junk(case, algo, ak, ck)
        elif s[0] == "x":
            r["c"] = ids[str(s[1])]
            x = algo.terminate(s[1])
            r["r"] = [] if x is None else [bool(x)]
        else:
            algo.terminate_all()
        st = []
        for rec in algo.get().to_dict("records"):
            st.append([ids[rec["case"]], bool(rec["is_fit"]), bool(algo.get_status([c for c in case["ids"] if str(c) == rec["case"]][0]))])
        r["st"] = sorted(st)
        steps.append(r)
    return {"op": "fp", "fp": {"acts": f["acts"], "starts": f["starts"], "ends": f["ends"], "rel": f["seq"] + f["par"]}, "steps": steps, "n": len(ids)}


def temp(case, par, ak, ck, tk, ids):
    import sys
    from pm4py.streaming.algo.conformance.temporal import algorithm
    prof = {(a, b): (m, s) for a, b, m, s in case["prof"]}
    if case["start"]:
        par["pm4py:param:start_timestamp_key"] = "begin"
    if case["zeta"]:
        par["zeta"] = case["zeta"][0] / case["zeta"][1]
    algo = algorithm.apply(prof, parameters=par)
    steps = []
    for o, c, a, s, t in case["steps"]:
        e = {ak: a, ck: c, tk: gens.ts(t)}
        if case["start"]:
            e["begin"] = gens.ts(s)
        algo.receive(e)
        junk(case, algo, ak, ck)
        st = []
        for cid, dv in algo.get().items():
            st.append([ids[cid], [[p, q, round(d), [-1, 1] if z == sys.maxsize else gens.frac(z)] for x, p, q, d, z in dv if str(x) == cid]])
        steps.append({"c": ids[str(c)], "a": a, "s": s, "t": t, "st": sorted(st)})
    return {"op": "temp", "prof": case["prof"], "zeta": case["zeta"] or [6, 1], "steps": steps, "n": len(ids)}


def nontrivial(case, evs):
    e = evs[0] if isinstance(evs, list) else evs
    if e["op"] == "temp":
        return len(e["steps"][-1]["st"]) > 0
    k = 4 if e["op"] == "tbr" else 1
    return len(set(x[k] for s in e["steps"] for x in s["st"])) == 2
