"""C09: guarantees of the inductive miner."""
from vf import core, gens

MODULE = "TrC09"
OWN_NAMES = 0.2
RULE = "logs of trees, mutated logs and random logs (empty traces, repeats, parallelism) x representation x variant (IM, IMf with and without noise, DFG-based, without fall-throughs) and df-complete logs of processes in the rediscoverable class; non-trivial: the tree has a loop or parallel operator"
LABELS = ["a", "b", "c", "d", "e", "f"]

# logs on which no cut applies and which only the loop fall-throughs split (found by search, minimised)
HARD = [["adcdb", "bcab", "b"],
        ["bacab", "ccab"],
        ["abbc", "acbac"],
        ["acbdb", "bce", "eda"],
        ["dcbc", "dcbbd"],
        ["cdaec", "c", "ed"],
        ["bbda", "adbda"],
        ["cdacb", "bab", "bdb"],
        ["baabc", "cabc"],
        ["cec", "daedc", "c", "cbeab"],
        ["bcabc", "baac"],
        ["c", "babc", "cabc"],
        ["acb", "acbcab"],
        ["decb", "bea", "acd"],
        ["b", "bcadb", "dc"],
        ["cbacb", "cab", "b"],
        ["db", "cbadc", "ddc"],
        ["dcbcda", "acab", "a"],
        ["bacab", "cacab"],
        ["aecb", "bed", "dca"],
        ["b", "bdadb", "adb"],
        ["baccba", "bca"],
        ["dbabd", "dbaa"]]


def hard(rng):
    ren = dict(zip("abcde", rng.sample(LABELS, 5)))
    ws = [[ren[a] for a in w] for w in rng.choice(HARD)]
    if rng.random() < .4:
        pre, post = rng.choice([[], ["x"]]), rng.choice([[], ["y"]])
        ws = [pre + w + post for w in ws]
    if rng.random() < .3:
        ws += [["z"] * rng.randint(1, 2)]
    ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 3))]
    rng.shuffle(ws)
    return ws


def rediscoverable(rng):
    """tree over distinct activities, no silent leaf, loop bodies with more than one activity"""
    while True:
        t = gens.rtree(rng, LABELS, rng.randint(2, 6), tau=0, opt=0)
        if gens.tree_size(t) and ok(t):
            return t


def first_last(t):
    k = t[0]
    if k == "act":
        return {t[1]}, {t[1]}
    fl = [first_last(c) for c in t[1]]
    if k == "seq":
        return fl[0][0], fl[-1][1]
    if k == "loop":
        return fl[0]
    return set().union(*[f for f, _ in fl]), set().union(*[l for _, l in fl])


def ok(t):
    if t[0] == "act":
        return True
    if t[0] == "tau":
        return False
    if t[0] == "loop":
        f, l = first_last(t[1][0])
        if f & l:
            return False
    return all(ok(c) for c in t[1])


def covering_words(rng, t, n=150):
    ws, seen = [], set()
    for _ in range(n):
        w = gens.words_of_tree(rng, t, 12)
        x = {("s", w[0]), ("e", w[-1])} | set(zip(w, w[1:]))
        if x - seen and len(w) <= 16:
            seen |= x
            ws.append(w)
    rng.shuffle(ws)
    return ws


def cases(rng, tier):
    n = 600 if tier == "quick" else 4000
    for _ in range(n):
        x = rng.random()
        if x < .35:
            t = rediscoverable(rng)
            yield {"k": "redis", "tree": t, "ws": covering_words(rng, t), "df": rng.random() < .3}
            continue
        t = gens.rtree(rng, LABELS[:rng.randint(2, 6)], rng.randint(1, 6), tau=.2, dup=rng.random() < .4)
        ws = []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .65:
                w = gens.mutate_word(rng, gens.words_of_tree(rng, t)[:7], LABELS[:5], .25)
            else:
                w = [rng.choice(LABELS[:rng.choice([1, 2, 3, 5])]) for _ in range(rng.randint(0, 6))]
            ws.append(w)
        ws += [list(rng.choice(ws)) for _ in range(rng.randint(0, 4))]
        if x > .85:
            ws = hard(rng)
        df = rng.random() < .35
        if x < .5:
            ws = [w or ["a"] for w in ws]
            yield {"k": "dfg", "ws": ws, "df": df}
        else:
            if df:
                ws = [w or ["a"] for w in ws]
            yield {"k": "mine", "ws": ws, "df": df, "noise": rng.choice([0, 0, 0, 0, 0.2, 0.5]), "nofall": rng.random() < .2, "imf": rng.random() < .2,
                   "nostrict": rng.random() < .15}


def run(case):
    import pm4py
    from pm4py.algo.discovery.inductive import algorithm as im_alg
    log = gens.word_log(case["ws"])
    obj = gens.to_df(log, order=gens.time_order(log)) if case["df"] else gens.to_eventlog(log)
    if case["k"] == "redis":
        return {"op": "redis", "ws": case["ws"], "orig": case["tree"], "tree": gens.tree_from_pm(pm4py.discover_process_tree_inductive(obj, **gens.kw(obj)))}
    if case["k"] == "dfg":
        from pm4py.objects.dfg.obj import DFG
        d = pm4py.discover_dfg_typed(obj, **gens.kw(obj)) if case["df"] else DFG(*pm4py.discover_dfg(obj, **gens.kw(obj)))
        return {"op": "dfg", "dfg": sorted(map(list, d.graph)), "starts": sorted(d.start_activities), "ends": sorted(d.end_activities),
                "tree": gens.tree_from_pm(pm4py.discover_process_tree_inductive(d))}
    kw = dict(noise_threshold=case["noise"], disable_fallthroughs=case["nofall"], **gens.kw(obj))
    if case["imf"] or case["nostrict"]:
        pt = im_alg.apply(obj, variant=im_alg.Variants.IMf if case["imf"] else im_alg.Variants.IM,
                          parameters={**gens.kp(obj), "noise_threshold": 0.0, "disable_fallthroughs": case["nofall"], "disable_strict_sequence_cut": case["nostrict"]})
        net = pm4py.convert_to_petri_net(pt)
        exact = True
    else:
        pt = pm4py.discover_process_tree_inductive(obj, **kw)
        net = pm4py.discover_petri_net_inductive(obj, **kw)
        exact = case["noise"] == 0
    ev = {"op": "mine", "ws": case["ws"], "exact": exact, "tree": gens.tree_from_pm(pt), "net": gens.net_from_pm(*net), "hasbpmn": False}
    if not case["imf"] and not case["nostrict"] and case["noise"] == 0 and any(case["ws"]):
        b = pm4py.discover_bpmn_inductive(obj, **kw)
        ev["bnet"] = gens.net_from_pm(*pm4py.convert_to_petri_net(b))
        ev["hasbpmn"] = True
    return ev


def nontrivial(case, evs):
    return any('"loop"' in core.canon(e.get("tree")) or '"par"' in core.canon(e.get("tree")) for e in evs)
