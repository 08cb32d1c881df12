"""C28: temporal profile discovery and conformance checking."""
import sys
from vf import core, gens
from drivers.c15 import slots

MODULE = "TrC28"
RULE = "random logs with plain or interval events (ties, zero elapsed times, interleaved rows, custom attribute names), with and without business-hour slots, in both representations: the profile against mean and variance; conformance against profiles with dyadic means and deviations (boundaries included) and against the discovered profile; non-trivial: a positive deviation exists"
LABELS = ["a", "b", "c", "d"]


def cases(rng, tier):
    n = 700 if tier == "quick" else 8000
    for i in range(n):
        bh = rng.random() < .2
        u = 900 if bh else 1
        own = i % 3 == 2        # numbers of the discovered profile have to stay small (32-bit integers in TLC)
        log = gens.rlog(rng, LABELS[:rng.randint(1, 4)], rng.randint(1, 3 if own else 6), rng.choice([2, 4] if own else [2, 4, 5]), minlen=1, ties=rng.choice([0, .3, .8]), maxdt=rng.choice([1, 5] if own else [1, 5, 12]))
        iv = rng.random() < .3
        for x in log:
            for e in x["ev"]:
                e["t"] *= u
                if iv:
                    e["s"] = max(0, e["t"] - u * rng.choice([0, 0, 1, 3]))
            x["ev"].sort(key=lambda e: (e.get("s", e["t"]), e["t"]))
        case = {"log": log, "iv": iv, "bh": slots(rng) if bh else [], "u": u, "rep": rng.choice(["log", "df"]), "keys": rng.random() < .25,
                "order": gens.interleaving(rng, log) if rng.random() < .5 else [j for j, c in enumerate(log) for _ in c["ev"]]}
        if i % 3 == 0:
            yield dict(case, k="disc")
        elif i % 3 == 1:
            al = LABELS[:rng.randint(1, 4)]
            prof = [[a, b, rng.choice([rng.randint(0, 10) * 8, rng.randint(0, 100)]), rng.choice([0, 1, 4, 8, 16, 3])] for a in al for b in al if rng.random() < .8]
            yield dict(case, k="conf", prof=prof, z=[rng.choice([0, 1, 2, 4, 6, 8, 12]), 4])
        else:
            yield dict(case, k="own", z=[rng.choice([0, 1, 2, 3]), 2])


def run(case):
    import pm4py
    from pm4py.util import constants as C
    from pm4py.algo.discovery.temporal_profile import algorithm as disc
    from pm4py.algo.conformance.temporal_profile import algorithm as conf
    log, rep, u = case["log"], case["rep"], case["u"]
    keys, kw = {}, {}
    kact, kts, kcase = "concept:name", "time:timestamp", "case:concept:name"
    if case["keys"]:
        kact, kts = "act", "when"
        keys = {"a": kact, "t": kts}
        kw = {"activity_key": kact, "timestamp_key": kts}
        if rep == "df":
            keys["case"] = kcase = kw["case_id_key"] = "CASE"
    mk = lambda: gens.to_eventlog(log, keys) if rep == "log" else gens.to_df(log, keys, case["order"])
    par = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: kact, C.PARAMETER_CONSTANT_TIMESTAMP_KEY: kts}
    if rep == "df":
        par[C.PARAMETER_CONSTANT_CASEID_KEY] = kcase
    low = case["iv"] or case["bh"]
    if case["iv"]:
        par[C.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = "start_timestamp"
    if case["bh"]:
        par.update(business_hours=True, business_hour_slots=[tuple(s) for s in case["bh"]])
    ev = [[{"a": e["a"], "s": e["s"] if case["iv"] else e["t"], "t": e["t"]} for e in c["ev"]] for c in log]
    base = {"ev": ev, "bh": case["bh"], "u": u}
    L = mk()
    if case["k"] != "conf":
        prof = disc.apply(L, parameters=par) if low else pm4py.discover_temporal_profile(L, **kw)
        assert all(v[1] >= 0 for v in prof.values())
    if case["k"] == "disc":
        return dict(base, op="disc", out=[[list(k), gens.frac(m / u), gens.frac((s / u) ** 2)] for k, (m, s) in prof.items()])
    z = case["z"][0] / case["z"][1]
    if case["k"] == "conf":
        prof = {(a, b): (m * u / 8, s * u / 8) for a, b, m, s in case["prof"]}
        P = [[[a, b], [m, 8], [s * s, 64]] for a, b, m, s in case["prof"]]
    else:
        P = [[list(k), gens.frac(m / u), gens.frac((s / u) ** 2)] for k, (m, s) in prof.items()]
    L = mk()
    par2 = dict(par, zeta=z)
    res = conf.apply(L, prof, parameters=par2) if low else pm4py.conformance_temporal_profile(L, prof, zeta=z, **kw)
    D = conf.get_diagnostics_dataframe(L, res, parameters=par) if low else pm4py.conformance_temporal_profile(mk(), prof, zeta=z, return_diagnostics_dataframe=True, **kw)
    ids = [c["id"] for c in log]
    if rep == "df":
        ids = list(dict.fromkeys(L[kcase]))      # the results are in the order of appearance of the cases
        base["ev"] = [ev[[c["id"] for c in log].index(i)] for i in ids]

    ex = case["k"] == "conf"

    def item(a, b, v, zz):
        v = v / u
        assert abs(v - round(v)) < 1e-6
        return [[a, b], int(round(v)), ([-1, 1] if zz >= sys.maxsize else gens.frac(zz)) if ex else []]
    out = [[item(*d) for d in x] for x in res]
    diag = [[ids.index(r["case"]) + 1] + item(r["source_activity"], r["target_activity"], r["throughput"], r["num_st_devs"]) for r in D.to_dict("records")]
    return dict(base, op="conf", prof=P, z=case["z"], exact=ex, out=out, diag=diag)


def nontrivial(case, evs):
    e = evs[0]
    if e["op"] == "exc":
        return False
    if e["op"] == "disc":
        return any(x[2][0] > 0 for x in e["out"])
    return any(e["out"])
