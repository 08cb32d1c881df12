"""C47: process-tree generators and the reduction of a tree by a trace."""
from vf import core, gens

MODULE = "TrC47"
RULE = "generator variant x bounds, operator weights, silent and duplicate probability, number of models, string or enum keys, and random trees x traces (fitting, mutated, empty) for the reduction; non-trivial: more than three leaves"
LABELS = ["a", "b", "c", "d", "e", "f"]
OPN = {"sequence": "seq", "choice": "xor", "parallel": "par", "loop": "loop", "or": "or"}
CASE_TIMEOUT = 20


def cases(rng, tier):
    n = 480 if tier == "quick" else 4000
    for i in range(n):
        k = ["gen", "red", "gen", "basic", "red"][i % 5]
        seed = rng.randrange(10 ** 6)
        if k == "gen":
            lo = rng.choice([1, 2, 3, 5, 8])
            hi = lo + rng.choice([0, 1, 4, 12])
            w = {o: rng.choice([0, 0, .25, .5, 1, 3]) for o in OPN}
            if not any(w.values()):
                w[rng.choice(list(OPN))] = 1
            yield {"k": k, "min": lo, "max": hi, "mode": rng.randint(lo, hi), "w": w, "silent": rng.choice([0, 0, .2, .6, 1]), "dup": rng.choice([0, 0, 0, 0, .2, .6, 1]),
                   "n": rng.choice([1, 1, 1, 2, 4]), "enum": rng.random() < .4, "seed": seed}
        elif k == "basic":
            lo = rng.choice([0, 1, 1, 2, 3])
            yield {"k": k, "lo": lo, "hi": rng.choice([lo, lo, lo + 1, max(0, lo - 1), 3]), "p": rng.choice([0, .25, .6, .9, 1]), "seed": seed}
        else:
            t = gens.rtree(rng, LABELS, rng.randint(2, 9), tau=.25, dup=rng.random() < .3, opt=.4)
            w = gens.words_of_tree(rng, t)[:8]
            x = rng.random()
            if x < .4:
                w = gens.mutate_word(rng, w, LABELS, .3)
            elif x < .6:
                w = w[:rng.randint(0, 2)]
            yield {"k": k, "tree": t, "w": w, "key": rng.random() < .3}


def consistent(t, parent=None):
    return t.parent is parent and all(consistent(c, t) for c in t.children)


def run(case):
    import random
    import numpy as np
    if case["k"] == "red":
        from pm4py.algo.reduction.process_tree import reducer
        from pm4py.algo.reduction.process_tree.variants import tree_tr_based as v
        pt = gens.tree_to_pm(case["tree"])
        key = "act" if case["key"] else "concept:name"
        tr = gens.to_eventlog(gens.word_log([case["w"]]), {"a": key} if case["key"] else {})[0]
        out = reducer.apply(pt, tr, variant=reducer.Variants.TREE_TR_BASED, parameters={v.Parameters.ACTIVITY_KEY: key} if case["key"] else None)
        return {"op": "red", "tree": case["tree"], "word": case["w"], "out": gens.tree_from_pm(out), "same": gens.tree_from_pm(pt) == case["tree"]}
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    from pm4py.algo.simulation.tree_generator import algorithm as tg
    import pm4py
    if case["k"] == "basic":
        from pm4py.algo.simulation.tree_generator.variants.basic import Parameters as P
        if case["hi"] - case["lo"] > 2 or case["hi"] > 3:
            case = dict(case, hi=case["lo"])
        t = tg.apply(variant=tg.Variants.BASIC, parameters={P.MIN_REC_DEPTH: case["lo"], P.MAX_REC_DEPTH: case["hi"], P.PROB_LEAF: case["p"]})
        return {"op": "basic", "tree": gens.tree_from_pm(t), "lo": min(case["lo"], case["hi"] + 1), "hi": case["hi"], "always": case["p"] == 1, "parents": consistent(t)}
    from pm4py.algo.simulation.tree_generator.variants.ptandloggenerator import Parameters as P
    par = dict(case["w"], min=case["min"], max=case["max"], mode=case["mode"], silent=case["silent"], duplicate=case["dup"])
    if case["n"] != 1:
        par["no_models"] = case["n"]
    if case["enum"]:
        par = {P(k): v for k, v in par.items()}
    ts = pm4py.generate_process_tree(parameters=par)
    ts = ts if isinstance(ts, list) else [ts]
    I = lambda x: int(x * 100)
    return {"op": "gen", "trees": [gens.tree_from_pm(t) for t in ts], "n": case["n"], "min": case["min"], "max": case["max"], "silent": I(case["silent"]), "dup": I(case["dup"]),
            "weights": {OPN[o]: I(x) for o, x in case["w"].items()}, "parents": all(consistent(t) for t in ts)}


def nontrivial(case, evs):
    return any(gens.tree_size(t) > 3 for e in evs for t in e.get("trees", [e.get("tree")]) if t)
