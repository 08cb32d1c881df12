"""C51: anonymised trace variants."""
import importlib.machinery, random, sys, types
from vf import gens

MODULE = "TrC51"
RULE = "random logs and dataframes (shared and repeated words, activities that are prefixes of one another) through both trace variant queries with every prefix bound and pruning threshold, with negligible and with real noise; non-trivial: a word is pruned or cut"
MC = [dict(module="MCAnonym", env={"N": "3"}), dict(module="MCAnonym", env={"N": "4"}, tier="thorough")]


def cases(rng, tier):
    for i in range(250 if tier == "quick" else 3000):
        al = rng.sample(["a", "aa", "b", "A b", "TRACE", "c"], rng.randint(1, 4))
        log = gens.rlog(rng, al, rng.randint(1, 7), rng.choice([2, 3, 5]), attrs=False)
        near = rng.random() < .75
        k = rng.randint(1, 6)
        yield {"log": log, "v": rng.choice(["laplace", "sacofa"]), "k": k if near else min(k, 4), "p": rng.choice([1, 1, 2, 3]), "near": near,
               "seed": rng.randrange(10 ** 6), "rep": rng.choice(["log", "df"]), "order": gens.interleaving(rng, log)}


def run(case):
    import warnings
    warnings.filterwarnings("ignore")
    # the package around the queries also holds the attribute anonymisation, whose library (not used here) does not load in this environment
    try:
        import diffprivlib.mechanisms
    except Exception:
        for m in [m for m in sys.modules if m.split(".")[0] == "diffprivlib"]:
            del sys.modules[m]
        top = types.ModuleType("diffprivlib")
        top.__spec__ = importlib.machinery.ModuleSpec("diffprivlib", None)
        top.mechanisms = types.ModuleType("diffprivlib.mechanisms")
        sys.modules["diffprivlib"], sys.modules["diffprivlib.mechanisms"] = top, top.mechanisms
    import numpy as np
    from pm4py.algo.anonymization.trace_variant_query import algorithm as tvq
    log = case["log"]
    X = gens.to_df(log, None, case["order"]) if case["rep"] == "df" else gens.to_eventlog(log)
    snap = X.to_dict("records") if case["rep"] == "df" else [[dict(e) for e in t] for t in X]
    V = {"laplace": tvq.Variants.LAPLACE, "sacofa": tvq.Variants.SACOFA}[case["v"]]
    P = V.value.Parameters
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    par = {P.EPSILON: 1e9 if case["near"] else 0.7, P.K: case["k"], P.P: case["p"], P.SHOW_PROGRESS_BAR: False}
    ws = [[e["a"] for e in c["ev"]] for c in log]
    try:
        R = tvq.apply(X, variant=V, parameters=par)
    except ValueError as e:
        if "The result of the trace variant query is empty" not in str(e):
            raise
        R = None
    cnt, ok = {}, True
    if R is not None and len(R):        # words without events have no rows
        ids = list(dict.fromkeys(R["case:concept:name"]))
        ok = len(ids) == len(set(ids)) and all(a == b for a, b in zip(R["case:concept:name"], sorted(R["case:concept:name"], key=ids.index)))
        for _, g in R.groupby("case:concept:name", sort=False):
            w = tuple(g["concept:name"])
            cnt[w] = cnt.get(w, 0) + 1
    kept = snap == (X.to_dict("records") if case["rep"] == "df" else [[dict(e) for e in t] for t in X])
    return {"op": "tvq", "ws": ws, "v": case["v"], "k": case["k"], "p": case["p"], "near": case["near"], "got": [[list(w), c] for w, c in cnt.items()], "cases": ok, "kept": kept}


def nontrivial(case, evs):
    return any("got" in e and {tuple(w) for w, _ in e["got"]} != {tuple(w) for w in e["ws"]} for e in evs)
