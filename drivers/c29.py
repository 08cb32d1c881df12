"""C29: alpha miner (classic and plus)."""
from vf import core, gens

MODULE = "TrC29"
OWN_NAMES = 0.2
RULE = "every log of one word up to length 5 over three letters and of two words up to length 3 over two letters (enumerated by TLC), random logs, play-outs of random process trees and random directly-follows graphs (complete bipartite ones included) through the alpha miner and the alpha+ miner; non-trivial: a place with several inputs or outputs"


def cases(rng, tier):
    every = [x for e in ({"K": "3", "N": "5", "M": "1"}, {"K": "2", "N": "3", "M": "2"}) for x in core.gen("GenWords", env=e)]
    if tier != "quick":
        every += core.gen("GenWords", env={"K": "2", "N": "4", "M": "2"}) + core.gen("GenWords", env={"K": "3", "N": "3", "M": "2"})
    for w in every:
        yield {"k": "plus", "w": w, "form": "df"}
        if rng.random() < (.4 if tier == "quick" else 1):
            yield {"k": "classic", "w": w, "form": "df"}
    n = 500 if tier == "quick" else 6000
    for j in range(n):
        al = ["a", "b", "c", "d d", "e", "f"][:rng.randint(1, 6)]
        form = rng.choice(["df", "df", "log"])
        if j % 3 == 0:
            w = [[rng.choice(al) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 6))]
        elif j % 3 == 1:
            t = gens.rtree(rng, al, len(al))
            w = [x for x in (gens.words_of_tree(rng, t)[:9] for _ in range(rng.choice([2, 5, 12, 30]))) if x] or [["a"]]
        else:
            b = rng.randint(1, 3)
            X, Y = al[:b], al[b:] or ["z"]
            ps = [[x, y] for x in X for y in Y] if rng.random() < .6 else [[x, y] for x in al for y in al if rng.random() < rng.choice([.2, .4])]
            if rng.random() < .5:
                ps += [[rng.choice(al), rng.choice(al)] for _ in range(rng.randint(0, 3))]
            ps = sorted({tuple(p) for p in ps}) or [("a", "b")]
            rng.shuffle(ps)
            yield {"k": "dfg", "dfg": [[a, b, rng.randint(1, 9)] for a, b in ps]}
            continue
        yield {"k": rng.choice(["classic", "plus"]), "w": w, "form": form}


def run(case):
    import pm4py
    from pm4py.algo.discovery.alpha import algorithm as alpha
    if case["k"] == "dfg":
        net, im, fm = alpha.apply_dfg({(a, b): n for a, b, n in case["dfg"]})
    else:
        cs = gens.word_log(case["w"])
        log = gens.to_df(cs) if case["form"] == "df" else gens.to_eventlog(cs)
        net, im, fm = (pm4py.discover_petri_net_alpha if case["k"] == "classic" else pm4py.discover_petri_net_alpha_plus)(log, **gens.kw(log))
        assert gens.KEYED or [[e["concept:name"] for e in t] for t in pm4py.convert_to_event_log(log)] == case["w"]
    ends = {id(t): "" for t in net.transitions if t.label is None}
    for t in net.transitions:
        if t.label is None:       # the artificial start is taken from the initially marked place, the artificial end marks the final one
            ends[id(t)] = "]" if any(a.target in fm for a in t.out_arcs) else "[" if any(a.source in im for a in t.in_arcs) else "?"
    lab = lambda t: ends.get(id(t), t.label)
    assert all(a.weight == 1 for a in net.arcs) and all(m in net.places for x in (im, fm) for m in x)
    places = sorted([sorted(lab(a.source) for a in p.in_arcs), sorted(lab(a.target) for a in p.out_arcs), im[p], fm[p]] for p in net.places)
    return {"op": "plus" if case["k"] == "plus" else "classic", "w": case.get("w", []), "dfg": case.get("dfg", []), "places": places, "labels": [lab(t) for t in net.transitions]}


def nontrivial(case, evs):
    e = evs[0]
    return e["op"] != "exc" and any(len(p[0]) > 1 or len(p[1]) > 1 for p in e["places"])
