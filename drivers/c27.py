"""C27: log skeleton discovery and conformance checking."""
from vf import core, gens

MODULE = "TrC27"
OWN_NAMES = 0.2
RULE = "every log of one word up to length 5 over three letters, of two words up to length 3 over two letters (enumerated by TLC), and random logs, with noise thresholds k/8; conformance of the discovery log and of mutated logs against discovered and random skeletons, with subsets of the considered constraints; non-trivial: some relation does not hold everywhere"
KINDS = ["equivalence", "always_after", "always_before", "never_together", "directly_follows"]


def cases(rng, tier):
    every = [x for e in ({"K": "3", "N": "5", "M": "1"}, {"K": "2", "N": "3", "M": "2"}) for x in core.gen("GenWords", env=e)]
    if tier != "quick":
        every += core.gen("GenWords", env={"K": "2", "N": "4", "M": "2"}) + core.gen("GenWords", env={"K": "3", "N": "3", "M": "2"})
    for w in every:
        yield {"k": "disc", "w": w, "noise": [0, 8], "form": "df"}
        yield {"k": "conf", "w": w, "model": rskel(rng, ["a", "b", "c"]), "form": "df", "cons": None}
    n = 500 if tier == "quick" else 6000
    for j in range(n):
        al = ["a", "b", "c", "d d", "e"][:rng.randint(1, 5)]
        w = [[rng.choice(al) for _ in range(rng.randint(1, 7))] for _ in range(rng.randint(1, 6))]
        if rng.random() < .5:
            w += [list(rng.choice(w)) for _ in range(rng.randint(1, 4))]
        form = rng.choice(["df", "df", "log"])
        noise = [0 if rng.random() < .4 else rng.randint(1, 8), 8]
        cons = None if rng.random() < .7 else rng.sample(KINDS + ["activ_freq"], rng.randint(0, 6))
        yield {"k": "disc", "w": w, "noise": noise, "form": form}
        if j % 2:
            w2 = [gens.mutate_word(rng, x, al + ["zz"]) for x in w] if rng.random() < .6 else w
            w2 = [x or ["a"] for x in w2]
            yield {"k": "conf", "w": w2, "model": w, "noise": noise, "form": form, "cons": cons}
        else:
            yield {"k": "conf", "w": w, "model": rskel(rng, al + ["zz"]), "form": form, "cons": cons}


def rskel(rng, al):
    p = rng.choice([.1, .3, .6])
    s = {k: [[a, b] for a in al for b in al if rng.random() < p and (a != b or k not in ("equivalence", "never_together"))] for k in KINDS}
    s["activ_freq"] = [[a, sorted(rng.sample(range(5), rng.randint(1, 3)))] for a in al if rng.random() < .8]
    return s


def dump(sk):
    return {k: [list(p) for p in sorted(sk[k])] for k in KINDS}


def run(case):
    import pm4py
    from pm4py.algo.discovery.log_skeleton import algorithm as disc
    from pm4py.algo.conformance.log_skeleton import algorithm as conf
    w = case["w"]
    mk = lambda w: gens.to_df(gens.word_log(w)) if case["form"] == "df" else gens.to_eventlog(gens.word_log(w))
    if case["k"] == "disc":
        sk = pm4py.discover_log_skeleton(mk(w), **gens.kw(mk(w)), noise_threshold=case["noise"][0] / case["noise"][1])
        vs = disc.apply_from_variants_list([(tuple(x), 1) for x in sorted({tuple(x) for x in w})])
        return {"op": "disc", "w": w, "noise": case["noise"], "out": dump(sk), "freq": [[a, sorted(s)] for a, s in sk["activ_freq"].items()], "vout": dump(vs)}
    m = case["model"]
    own = False
    if isinstance(m, list):
        own = m == w and case["noise"][0] == 0
        sk = pm4py.discover_log_skeleton(mk(m), **gens.kw(mk(m)), noise_threshold=case["noise"][0] / case["noise"][1])
    else:
        sk = {k: set(map(tuple, m[k])) for k in KINDS}
        sk["activ_freq"] = {a: set(s) for a, s in m["activ_freq"]}
    log = mk(w)
    if case["cons"] is None:
        res = pm4py.conformance_log_skeleton(log, sk, **gens.kw(log))
        df = pm4py.conformance_log_skeleton(mk(w), sk, return_diagnostics_dataframe=True, **gens.kw(log))
        assert list(df["no_dev_total"]) == [r["no_dev_total"] for r in res] and list(df["dev_fitness"]) == [r["dev_fitness"] for r in res] and list(df["case_id"]) == ["c%d" % i for i in range(len(w))] and list(df["no_constr_total"]) == [r["no_constr_total"] for r in res]
        vr = conf.apply_from_variants_list([(tuple(x), 1) for x in w], sk)
        assert [canon(vr[tuple(x)]) for x in w] == [canon(r) for r in res]
        assert case["form"] == "df" or canon(conf.apply(log[0], sk, parameters=gens.kp(log))) == canon(res[0])
    else:
        res = conf.apply(log, sk, parameters={**gens.kp(log), conf.Variants.CLASSIC.value.Parameters.CONSIDERED_CONSTRAINTS: case["cons"]})
    return {"op": "conf", "w": w, "cons": KINDS + ["activ_freq"] if case["cons"] is None else case["cons"], "own": own,
            "m": {"rel": dump(sk), "freq": [[a, sorted(s)] for a, s in sk["activ_freq"].items()]}, "out": [canon(r) for r in res]}


def canon(r):
    return {"dev": [[d[0], list(d[1]) if d[0] == "activ_freq" else [list(p) for p in sorted(d[1])]] for d in r["deviations"]],
            "n": r["no_dev_total"], "tot": r["no_constr_total"], "f": gens.frac(r["dev_fitness"]), "fit": bool(r["is_fit"])}


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    if e["op"] == "conf":
        return any(x["dev"] for x in e["out"])
    acts = {a for x in e["w"] for a in x}
    return any(0 < len(e["out"][k]) < len(acts) * (len(acts) - 1) for k in KINDS)
