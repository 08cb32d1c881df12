"""C18: event-level filters."""
import importlib
from drivers import c17
from vf import gens

MODULE = "TrC18"
RULE = "random logs (ties, missing attribute values, arbitrarily interleaved dataframe rows, custom attribute names) through every filter that removes events or cuts cases, with random arguments, in both representations; non-trivial: some events are kept and some are not"
KINDS = ["values", "values", "numeric", "time", "relative", "relative", "occurring", "prefix", "suffix", "prefix", "suffix", "same_act", "same_time", "maxact", "between", "between", "split", "concat"]
DF_ONLY = ("same_act", "same_time", "split", "concat", "occurring")


def cases(rng, tier):
    n = 1200 if tier == "quick" else 12000
    for j in range(n):
        k = KINDS[j % len(KINDS)]
        rep = "df" if k in DF_ONLY else rng.choice(["log", "df"])
        log = c17.mklog(rng, rep == "log" and rng.random() < .5)
        evs = [e for c in log for e in c["ev"]]
        if not evs:
            continue
        lab = sorted({e["a"] for e in evs}) + ["zz"]
        A = lambda: rng.choice(lab)
        tt = lambda: rng.choice(evs)["t"] + rng.choice([0, 0, 0, -1, 1])
        p = {"pos": rng.random() < .6, "val": A(), "first": rng.random() < .5, "strict": rng.random() < .5, "field": "a"}
        if k in ("values", "relative"):
            p["field"] = rng.choice("aarv")
            dom = [e[p["field"]] for e in evs if p["field"] in e] or ["R1"]
            p["vals"] = list({rng.choice(dom) for _ in range(rng.randint(1, 2))})
            p.update(num=rng.randint(0, 8), den=8, level=rng.choice(["cases", "events"]))
        elif k == "numeric":
            lo = rng.randint(0, 5)
            p.update(lo=lo, hi=lo + rng.randint(0, 3))
        elif k == "time":
            a, b = sorted([tt(), tt()])
            p.update(lo=a, hi=b)
        elif k in ("occurring", "maxact"):
            p["x"] = rng.randint(1, 4)
        elif k in ("between", "split"):
            p["vals"] = sorted({A() for _ in range(rng.randint(1, 2))})
            p["vals2"] = p["vals"] if rng.random() < .35 else sorted({A() for _ in range(rng.randint(1, 2))})
            p["mode"] = rng.choice(["this", "next"])
        yield {"k": k, "log": log, "rep": rep, "p": p, "keys": rng.random() < .3, "low": rng.random() < .4,
               "order": gens.interleaving(rng, log) if rng.random() < .5 else [j for j, c in enumerate(log) for _ in c["ev"]]}


def run(case):
    import pm4py
    k, rep, p, low = case["k"], case["rep"], case["p"], case["low"]
    L, N, kw, par = c17.setup(case)
    df = rep == "df"
    pk = "pm4py.algo.filtering.%s." % ("pandas" if df else "log")
    M = lambda m: importlib.import_module(pk + m)
    cid = {x: kw[x] for x in kw if x == "case_id_key"}
    ct = {x: kw[x] for x in kw if x != "activity_key"}
    if df and (N["v"] not in L.columns or N["r"] not in L.columns):
        return []
    base = dict(p, op="events", f=k, w=c17.inp(case["log"]))
    one = lambda v: v[0] if len(v) == 1 else v
    if k == "values":
        o = pm4py.filter_event_attribute_values(L, N[p["field"]], p["vals"], level="event", retain=p["pos"], **cid)
    elif k == "numeric":
        q = dict(par, positive=p["pos"])
        q["pm4py:param:attribute_key"] = N["v"]
        o = M("attributes.attributes_filter").apply_numeric_events(L, p["lo"], p["hi"], parameters=q)
    elif k == "time":
        o = pm4py.filter_time_range(L, c17.stamp(p["lo"]), c17.stamp(p["hi"]), mode="events", **ct)
    elif k == "relative":
        o = pm4py.filter_log_relative_occurrence_event_attribute(L, p["num"] / p["den"], attribute_key=N[p["field"]], level=p["level"], **ct)
    elif k == "occurring":
        o = M("attributes.attributes_filter").filter_df_keeping_activ_exc_thresh(L, p["x"], activity_key=N["a"])
    elif k in ("prefix", "suffix"):
        f = pm4py.filter_prefixes if k == "prefix" else pm4py.filter_suffixes
        o = f(L, p["val"], strict=p["strict"], first_or_last="first" if p["first"] else "last", **kw)
    elif k == "same_act":
        o = M("consecutive_act_case_grouping.consecutive_act_case_grouping_filter").apply(L, parameters=dict(par, filter_type="first" if p["first"] else "last"))
    elif k == "same_time":
        o = M("timestamp_case_grouping.timestamp_case_grouping_filter").apply(L, parameters=dict(par, filter_type="first" if p["first"] else "last"))
    elif k == "concat":
        base["op"] = "concat"
        o = M("timestamp_case_grouping.timestamp_case_grouping_filter").apply(L, parameters=dict(par, filter_type="concat"))
    elif k == "maxact":
        base["op"] = "maxact"
        m = M("attributes.attributes_filter")
        o = m.filter_df_keeping_spno_activities(L, activity_key=N["a"], max_no_activities=p["x"]) if df else m.filter_log_on_max_no_activities(L, p["x"], parameters=par)
    elif k == "between":
        base["op"] = "parts"
        o = pm4py.filter_between(L, one(p["vals"]), one(p["vals2"]), **kw)
    elif k == "split":
        base["op"] = "parts"
        o = M("activity_split.activity_split_filter").apply(L, one(p["vals"]), parameters=dict(par, cut_mode=p["mode"]))
    res = []
    for c in c17.out(o, N):
        i, _, n = c["id"].partition("##@@")
        res.append(dict(c, id=i, n=int(n or 0)))
    base["out"] = res
    if k == "concat":
        base["names"] = [[e["a"].split(" & ") for e in c["ev"]] for c in res]
    return base


def nontrivial(case, evs):
    return any(e.get("op") != "exc" and 0 < sum(len(c["ev"]) for c in e["out"]) < sum(len(c["ev"]) for c in e["w"]) for e in evs)
