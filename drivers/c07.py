"""C07: token-based replay accounting."""
from vf import core, gens
from drivers.c02 import LABELS
from drivers import c05

MODULE = "TrC07"
OWN_NAMES = 0.2
RULE = "accepting nets (trees, unfenced, perturbed, weighted, state machines) x runs, mutated runs and random words, event log or dataframe, place-level option; non-trivial: both fitting and unfitting traces"


def silent_pump(net):
    """Can silent transitions alone multiply tokens?  (The replay enumerates the markings reached by silent steps.)"""
    import itertools
    eff = [[b - a for a, b in zip(t["pre"], t["post"])] for t in net["t"] if t["lab"] == ""]
    eff = eff[:5]
    for k in itertools.product(range(3), repeat=len(eff)):
        if any(k):
            v = [sum(k[i] * eff[i][p] for i in range(len(eff))) for p in range(len(net["im"]))]
            if min(v) >= 0 and max(v) > 0:
                return True
    return False


def few_silent_markings(net, m, limit=200):
    """(a guard on the cost of the check: the markings reached by silent steps, if they are few)"""
    seen, todo = {tuple(m)}, [tuple(m)]
    while todo:
        x = todo.pop()
        for t in net["t"]:
            if t["lab"] == "" and all(a >= b for a, b in zip(x, t["pre"])):
                y = tuple(a - b + c for a, b, c in zip(x, t["pre"], t["post"]))
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if len(seen) > limit:
            return False
    return True


def cases(rng, tier):
    n = 900 if tier == "quick" else 4000
    while n:
        x = rng.random()
        if x < .3:
            # sequential nets with silent steps: here the replay must be exact
            t = gens.rtree(rng, LABELS + ["e", "f"], rng.randint(1, 7), ops=["seq", "xor", "loop"], tau=.3)
            net = gens.net_of_tree(t)
            if rng.random() < .5:
                net = gens.unfence(rng, net, .5)
        else:
            net, t = c05.rand_net(rng)
        if net is None or gens.reach(net, 80) is None or silent_pump(net) or not sum(net["im"]) or not sum(net["fm"]):
            continue
        n -= 1
        ws = c05.rand_words(rng, net, t, rng.randint(1, 5))
        ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 2))]
        df = rng.random() < .4
        ws = [w for w in ws if w or not df] or [["a"]]
        rng.shuffle(ws)
        yield {"net": net, "ws": ws, "df": df, "strict": rng.random() < .25, "pltr": (not df) and rng.random() < .3,
               "opt": rng.choice(["", "", "names", "nowalk", "noreach", "norem", "novar", "stop", "frame", "variants"]),
               "ids": rng.sample(range(10, 99), len(ws))}


def run(case):
    import pm4py
    from pm4py.algo.conformance.tokenreplay import algorithm as tr
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    no = {t: i + 1 for i, t in enumerate(ts)}
    pix = {p: i for i, p in enumerate(ps)}
    log = gens.word_log(case["ws"])
    for c, i in zip(log, case["ids"]):
        c["id"] = "c%d" % i
    ws = case["ws"]
    if case["df"]:
        obj = gens.to_df(log, order=gens.time_order(log))
        ws = [w for _, w in sorted(zip([c["id"] for c in log], case["ws"]))]
    else:
        obj = gens.to_eventlog(log)
    opt = {}
    if case["strict"]:
        opt["consider_activities_not_in_model_in_fitness"] = True
    o = case.get("opt", "")
    opt.update({"names": {"return_names": True}, "nowalk": {"walk_through_hidden_trans": False}, "noreach": {"try_to_reach_final_marking_through_hidden": False},
                "norem": {"consider_remaining_in_fitness": False}, "novar": {"disable_variants": True}}.get(o, {}))
    pf = None
    if case["pltr"]:
        opt["enable_pltr_fitness"] = True
        opt["show_progress_bar"] = False
        res, pfd, tf, na = tr.apply(obj, pn, im, fm, parameters=dict(gens.kp(obj), **opt))
        pf = [[pfd[p][k] for p in ps] for k in ("p", "c", "m", "r")]
    else:
        res = pm4py.conformance_diagnostics_token_based_replay(obj, pn, im, fm, opt_parameters=opt, **gens.kw(obj))
    fit = pm4py.fitness_token_based_replay(obj, pn, im, fm, **gens.kw(obj))
    more = {}
    if o == "names":
        tn = {t.name: t for t in ts}
        for d in res:
            d["lok"] = d["activated_transitions_labels"] == [tn[x].label for x in d["activated_transitions"]] and \
                d["enabled_transitions_in_marking_labels"] == [tn[x].label for x in d["enabled_transitions_in_marking"]]
            for k in ("activated_transitions", "transitions_with_problems", "enabled_transitions_in_marking"):
                d[k] = [tn[x] for x in d[k]]
            pn_ = {p.name: p for p in ps}
            d["reached_marking"] = {pn_[k]: v for k, v in d["reached_marking"].items()}
        more["lok"] = all(d["lok"] for d in res)
    fields = lambda d: {"fit": bool(d["trace_is_fit"]), "p": d["produced_tokens"], "c": d["consumed_tokens"], "m": d["missing_tokens"],
                        "r": d["remaining_tokens"], "f": gens.frac(d["trace_fitness"])}
    if o == "stop":
        so = dict(opt, stop_immediately_unfit=True)
        so.pop("enable_pltr_fitness", None)
        more["stop"] = [dict(fields(d), np=len(d["transitions_with_problems"])) for d in
                        pm4py.conformance_diagnostics_token_based_replay(obj, pn, im, fm, opt_parameters=so, **gens.kw(obj))]
    if o == "frame":
        if not case["df"]:
            for i, t in enumerate(obj):
                t.attributes["concept:name"] = log[i]["id"]
        fo = {k: v for k, v in opt.items() if k.startswith("consider")}
        df = pm4py.conformance_diagnostics_token_based_replay(obj, pn, im, fm, return_diagnostics_dataframe=True, opt_parameters=fo, **gens.kw(obj))
        more["frame"] = [{"id": str(a["case_id"]), "fit": bool(a["is_fit"]), "p": int(a["produced"]), "c": int(a["consumed"]), "m": int(a["missing"]),
                          "r": int(a["remaining"]), "f": gens.frac(float(a["trace_fitness"]))} for a in df.to_dict("records")]
        more["ids"] = sorted(c["id"] for c in log) if case["df"] else [c["id"] for c in log]
    if o == "variants":
        from pm4py.algo.conformance.tokenreplay.variants import token_replay as trv
        vs = sorted(set(tuple(w) for w in ws if w))
        vo = {k: v for k, v in opt.items() if k.startswith("consider")}
        more["vws"] = [list(v) for v in vs]
        more["vl"] = [fields(d) for d in trv.apply_variants_list([[v, 1] for v in vs], pn, im, fm, parameters=dict(vo))]
        more["vd"] = [fields(d) for d in trv.apply_variants_dictionary({v: [0] for v in vs}, pn, im, fm, parameters=dict(vo))]
    ev = {"op": "tbr", "opt": o, "net": net, "ws": ws, "strict": case["strict"],
          "r": [{"fit": bool(d["trace_is_fit"]), "p": d["produced_tokens"], "c": d["consumed_tokens"], "m": d["missing_tokens"],
                 "r": d["remaining_tokens"], "f": gens.frac(d["trace_fitness"]), "act": [no[t] for t in d["activated_transitions"]],
                 "mk": gens.mvec(d["reached_marking"], ps), "prob": [no[t] for t in d["transitions_with_problems"]],
                 "en": sorted(no[t] for t in d["enabled_transitions_in_marking"])} for d in res],
          "perc": round(fit["perc_fit_traces"] * 1000), "perc2": round(fit["percentage_of_fitting_traces"] * 1000),
          "avg": round(fit["average_trace_fitness"] * 10 ** 6), "log": gens.frac(fit["log_fitness"])}
    ev.update(more)
    for d in ev["r"]:
        d["few"] = few_silent_markings(net, d["mk"])
    if pf is not None:
        ev["pf"] = pf
    return ev


def nontrivial(case, evs):
    return any(e["op"] == "tbr" and len(set(d["fit"] for d in e["r"])) == 2 for e in evs)
