"""C26: DECLARE discovery and conformance checking."""
from vf import core, gens

MODULE = "TrC26"
OWN_NAMES = 0.2
RULE = "every log of one word up to length 5 over three letters and of two words up to length 3 over two letters (enumerated by TLC), and random logs: discovery with every template, random subsets of templates and activities, given and automatic thresholds; conformance of random constraint sets; non-trivial: some constraint is violated by a case and some holds in all"
MC = [dict(module="MCDeclare", env={"N": "6"}, tier="quick"), dict(module="MCDeclare", env={"N": "9"}, tier="thorough")]
UN = ["existence", "absence", "exactly_one", "init"]
BI = ["responded_existence", "response", "precedence", "succession", "altresponse", "altprecedence", "altsuccession", "chainresponse", "chainprecedence", "chainsuccession", "coexistence", "noncoexistence", "nonsuccession", "nonchainsuccession"]
DEP = {"absence": ["existence"], "succession": ["response", "precedence"], "altsuccession": ["altresponse", "altprecedence"], "chainsuccession": ["chainresponse", "chainprecedence"],
       "coexistence": ["responded_existence"], "noncoexistence": ["coexistence", "responded_existence"], "nonsuccession": ["succession", "response", "precedence"], "nonchainsuccession": ["chainsuccession", "chainresponse", "chainprecedence"]}


def close(ts):
    ts = set(ts)
    while True:
        n = ts | {d for t in ts for d in DEP.get(t, [])}
        if n == ts:
            return sorted(ts)
        ts = n


def cases(rng, tier):
    every = [x for e in ({"K": "3", "N": "5", "M": "1"}, {"K": "2", "N": "3", "M": "2"}) for x in core.gen("GenWords", env=e)]
    if tier != "quick":
        every += core.gen("GenWords", env={"K": "2", "N": "4", "M": "2"})
    for w in every:
        model = [[t, a, b] for t in BI for a in "abc" for b in "abc" if a != b and rng.random() < .35] + [[t, a, ""] for t in UN for a in "abc" if rng.random() < .4]
        yield {"k": "conf", "w": w, "model": model, "form": "df"}
        if rng.random() < (.5 if tier == "quick" else 1):
            yield {"k": "disc", "w": w, "acts": None, "tm": UN + BI, "ms": [0, 1], "mc": [0, 1], "form": "df"}
    n = 400 if tier == "quick" else 6000
    for j in range(n):
        al = ["a", "b", "c", "d d", "e"][:rng.randint(1, 5)]
        w = [[rng.choice(al) for _ in range(rng.randint(1, 8))] for _ in range(rng.randint(1, 6))]
        if rng.random() < .4:
            w += [list(rng.choice(w)) for _ in range(rng.randint(1, 3))]
        form = rng.choice(["df", "df", "log"])
        if form == "log" and rng.random() < .3:
            w.insert(rng.randint(0, len(w)), [])
        acts = sorted({a for x in w for a in x})
        if j % 3 == 0:
            model = [[t, a, b] for t in BI for a in al + ["zz"] for b in al if a != b and rng.random() < .2] + [[t, a, ""] for t in UN for a in al + ["zz"] if rng.random() < .3]
            yield {"k": "conf", "w": w, "model": model, "form": form}
        else:
            tm = None if rng.random() < .3 else close(rng.sample(UN + BI, rng.randint(1, 8)))
            sub = None if rng.random() < .6 else rng.sample(acts, rng.randint(1, len(acts)))
            th = lambda: None if rng.random() < .4 else [rng.randint(0, 8), 8]
            yield {"k": "disc", "w": w, "acts": sub, "tm": tm, "ms": th(), "mc": th(), "form": form}


DEFAULT = [t for t in UN + BI if not t.startswith("non")]


def run(case):
    import pm4py
    w = case["w"]
    cs = gens.word_log(w)
    log = gens.to_df(cs) if case["form"] == "df" else gens.to_eventlog(cs)
    if case["k"] == "disc":
        rat = lambda q: None if q is None else q[0] / q[1]
        m = pm4py.discover_declare(log, **gens.kw(log), allowed_templates=None if case["tm"] is None else set(case["tm"]), considered_activities=None if case["acts"] is None else set(case["acts"]),
                                   min_support_ratio=rat(case["ms"]), min_confidence_ratio=rat(case["mc"]))
        out = [[t] + (list(k) if isinstance(k, tuple) else [k, ""]) + [v["support"], v["confidence"]] for t, d in m.items() for k, v in d.items()]
        return {"op": "disc", "w": w, "acts": case["acts"] or sorted({a for x in w for a in x}), "tm": case["tm"] or DEFAULT, "ms": case["ms"] or [], "mc": case["mc"] or [], "out": out}
    model = {}
    for t, a, b in case["model"]:
        model.setdefault(t, {})[(a, b) if b else a] = {"support": 1, "confidence": 1}
    res = pm4py.conformance_declare(log, model, **gens.kw(log))
    out = [{"dev": [[d[0]] + (list(d[1]) if isinstance(d[1], tuple) else [d[1], ""]) for d in r["deviations"]], "n": r["no_dev_total"], "tot": r["no_constr_total"], "f": gens.frac(r["dev_fitness"]), "fit": bool(r["is_fit"])} for r in res]
    df = pm4py.conformance_declare(log, model, return_diagnostics_dataframe=True, **gens.kw(log))
    assert list(df["no_dev_total"]) == [r["no_dev_total"] for r in res] and list(df["dev_fitness"]) == [r["dev_fitness"] for r in res] and list(df["case_id"]) == [c["id"] for c in cs]
    return {"op": "conf", "w": w, "model": case["model"], "out": out}


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    if e["op"] == "conf":
        d = [len(x["dev"]) for x in e["out"]]
        return any(d) and any(0 < x < len(e["model"]) for x in d)
    return any(x[4] == x[3] for x in e["out"]) and any(x[4] < x[3] for x in e["out"])
