"""C30: prefix trees and transition systems."""
from vf import core, gens

MODULE = "TrC30"
OWN_NAMES = 0.2
RULE = "every log of one word up to length 5 over three letters and of two words up to length 3 over two letters (enumerated by TLC) and random logs; windows 1..5, both directions, the three views, with and without event data; non-trivial: a state (node) with two successors"


def cases(rng, tier):
    every = [x for e in ({"K": "3", "N": "5", "M": "1"}, {"K": "2", "N": "3", "M": "2"}) for x in core.gen("GenWords", env=e)]
    if tier != "quick":
        every += core.gen("GenWords", env={"K": "2", "N": "4", "M": "2"}) + core.gen("GenWords", env={"K": "3", "N": "3", "M": "2"})
    n = 500 if tier == "quick" else 6000
    for j in range(n):
        al = ["a", "b", "c", "d d", "e"][:rng.randint(1, 5)]
        w = [[rng.choice(al) for _ in range(rng.randint(1, 7))] for _ in range(rng.randint(1, 7))]
        w += [x[:rng.randint(1, len(x))] for x in w if rng.random() < .4]
        rng.shuffle(w)
        every.append(w)
    for w in every:
        form = rng.choice(["df", "log"])
        if rng.random() < .5:
            yield {"k": "tree", "w": w, "form": form}
        if rng.random() < .7:
            yield {"k": "ts", "w": w, "form": form, "n": rng.choice([1, 1, 2, 2, 3, 5]), "dir": rng.choice(["forward", "backward"]), "view": rng.choice(["sequence", "set", "multiset"]), "data": rng.random() < .5}


def run(case):
    import pm4py
    w = case["w"]
    cs = gens.word_log(w)
    log = gens.to_df(cs) if case["form"] == "df" else gens.to_eventlog(cs)
    if case["k"] == "tree":
        t = pm4py.discover_prefix_tree(log, **gens.kw(log))
        nodes = []

        def walk(n, p):
            nodes.append([p, bool(n.final), n.depth])
            for c in n.children:
                assert c.parent is n
                walk(c, p + [c.label])
        assert t.parent is None and t.label is None
        walk(t, [])
        return {"op": "tree", "w": w, "nodes": nodes}
    data = case["data"] and case["form"] == "log"
    if case["data"]:
        from pm4py.algo.discovery.transition_system import algorithm as ts
        s = ts.apply(log, parameters={**gens.kp(log), "direction": case["dir"], "window": case["n"], "view": case["view"], "include_data": True})
    else:
        s = pm4py.discover_transition_system(log, direction=case["dir"], window=case["n"], view=case["view"], **gens.kw(log))
    st = list(s.states)
    idx = {id(x): i + 1 for i, x in enumerate(st)}
    cid = {id(t): i + 1 for i, t in enumerate(log)} if data else {}
    evs = lambda x: [[cid[id(c)], i + 1] for c, i in x] if data else []
    name = lambda n: list(n) if case["view"] == "sequence" else sorted(n) if case["view"] == "set" else sorted([a, k] for a, k in n.items())
    for t in s.transitions:
        assert t in t.from_state.outgoing and t in t.to_state.incoming
    return {"op": "ts", "w": w, "k": case["n"], "dir": case["dir"], "view": case["view"], "data": data,
            "states": [[name(x.name), len(x.incoming), len(x.outgoing), evs(x.data["ingoing_events"]), evs(x.data["outgoing_events"])] for x in st],
            "edges": [[idx[id(t.from_state)], t.name, idx[id(t.to_state)], evs(t.data["events"])] for t in s.transitions]}


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    if e["op"] == "tree":
        return any(n[1] for n in e["nodes"]) and len(e["nodes"]) > len(max(e["w"], key=len)) + 1
    return any(s[2] > 1 for s in e["states"])
