"""C04: silent-transition and implicit-place reductions."""
import copy
from vf import gens
from drivers.c02 import LABELS

MODULE = "TrC04"
RULE = "bounded workflow nets with option to complete and proper completion (block structured with fences, perturbed, with added implicit places, with weighted arcs), and workflow nets with reset and inhibitor arcs through the reset/inhibitor reduction and each of its rules; non-trivial: the reduction removed something"


def add_implicit(rng, net):
    """duplicates a place, or adds a place parallel to a path (implicit or not)"""
    n = copy.deepcopy(net)
    for _ in range(rng.randint(1, 3)):
        inner = [p for p in range(len(n["im"])) if not n["im"][p] and not n["fm"][p]]
        if not inner:
            break
        if rng.random() < 0.5:
            p = rng.choice(inner)
            for u in n["t"]:
                u["pre"].append(u["pre"][p])
                u["post"].append(u["post"][p])
        elif len(inner) > 1 and rng.random() < 0.6:
            p, q = rng.sample(inner, 2)
            for u in n["t"]:
                d = u["post"][p] + u["post"][q] - u["pre"][p] - u["pre"][q]
                u["pre"].append(max(0, -d))
                u["post"].append(max(0, d))
        else:
            a, b = rng.choice(n["t"]), rng.choice(n["t"])
            for u in n["t"]:
                u["pre"].append(0)
                u["post"].append(0)
            a["post"][-1] = 1
            b["pre"][-1] = 1
        n["im"].append(0)
        n["fm"].append(0)
    r = gens.reach(n, 100)
    return n if r and tuple(n["fm"]) in r else None


def add_weights(rng, net):
    """doubles the arcs of a place; the tokens then pass one by one (or two by two) through a silent transition"""
    n = copy.deepcopy(net)
    inner = [p for p in range(len(n["im"])) if not n["im"][p] and not n["fm"][p]]
    if not inner:
        return None
    for p in rng.sample(inner, min(len(inner), rng.randint(1, 2))):
        how = rng.choice(["double", "ones", "twos", "split", "join"])
        for u in n["t"]:
            u["pre"][p] *= 1 if how == "join" else 2
            u["post"][p] *= 1 if how == "split" else 2
        if how == "double":
            continue
        # producers -> p -> (a) silent (b) -> p2 -> consumers
        a = 1 if how in ("ones", "split") else 2
        b = 2 if how in ("twos", "split") else 1
        for u in n["t"]:
            u["pre"].append(u["pre"][p])
            u["post"].append(0)
            u["pre"][p] = 0
        k = len(n["im"]) + 1
        pre, post = [0] * k, [0] * k
        pre[p], post[-1] = a, b
        n["t"].append(dict(n["t"][0], lab="" if rng.random() < .8 else rng.choice(LABELS), pre=pre, post=post))
        n["im"].append(0)
        n["fm"].append(0)
    r = gens.reach(n, 150)
    return n if r and tuple(n["fm"]) in r else None


def rand_net(rng):
    base = gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(1, 6), tau=.25, dup=rng.random() < .3)), rng.choice([0, .3, .8]))
    x = rng.random()
    if x < 0.45:
        net = base
    elif x < 0.65:
        net = add_weights(rng, base)
        if net and rng.random() < .4:
            net = add_implicit(rng, net)
    elif x < 0.85:
        net = add_implicit(rng, base)
    else:
        net = gens.perturb(rng, base, LABELS, 80)
    if net is None or not gens.sound(net, 100):
        return None
    # source and sink keep their role: nothing produces into the source, nothing consumes from the sink
    s, e = net["im"].index(1) if 1 in net["im"] else None, net["fm"].index(1) if 1 in net["fm"] else None
    if sum(net["im"]) != 1 or sum(net["fm"]) != 1 or any(u["post"][s] or u["pre"][e] for u in net["t"]):
        return None
    return net


def ext_net(rng):
    """a workflow net with unit arcs, some reset and inhibitor arcs, possibly a redundant self-loop transition or equal transitions"""
    net = gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(1, 6), tau=.3, dup=rng.random() < .3)), rng.choice([0, .3, .8]))
    if rng.random() < .4:
        net = add_implicit(rng, net)
    if net is None or any(x > 1 for t in net["t"] for x in t["pre"] + t["post"]):
        return None
    net = copy.deepcopy(net)
    n = len(net["im"])
    inner = [p for p in range(n) if not net["im"][p] and not net["fm"][p]]
    if inner and rng.random() < .25:
        p = rng.choice(inner)
        u = [int(q == p) for q in range(n)]
        net["t"].append({"lab": "", "pre": u, "post": list(u)})
    if rng.random() < .2:
        net["t"].append(copy.deepcopy(rng.choice(net["t"])))
    if rng.random() < .15:
        # a marked self-loop place, also final
        for u in net["t"]:
            x = int(rng.random() < .4)
            u["pre"].append(x)
            u["post"].append(x)
        net["im"].append(1)
        net["fm"].append(1)
        n += 1
    d = rng.choice([0, .02, .06, .12])
    for t in net["t"]:
        for k in ("inh", "rst"):
            t[k] = [int(rng.random() < d and not t["pre"][p] and p in inner) for p in range(n)]
    return net


def cases(rng, tier):
    n = 600 if tier == "quick" else 4000
    m = n // 3
    while m:
        net = ext_net(rng)
        if net:
            m -= 1
            small = len(net["im"]) <= 9 and len(net["t"]) <= 9
            yield {"net": net, "how": rng.choice(["ri", "ri", "ri", "elp", "fst", "fsp", "elt", "r"] + ["fpt", "fpp", "a"] * small)}
    while n:
        net = rand_net(rng)
        if net:
            n -= 1
            yield {"net": net, "how": rng.choice(["inv", "imp", "both", "imp", "inv"])}


def run(case):
    import pm4py
    if case["how"] not in ("inv", "imp", "both"):
        from pm4py.objects.petri_net.utils import reduction as R
        k = case["how"]
        pn, im, fm, ps, ts = gens.net_to_pm(case["net"], "xreset")
        if k == "ri":
            pn, im, fm = R.apply_reset_inhibitor_net_reduction(pn, im, fm)
        elif k == "fsp":
            pn, im, fm = R.apply_fsp_rule(pn, im, fm)
        elif k == "elp":
            R.apply_elp_rule(pn, im, fm)
        elif k == "fpp":
            R.apply_fpp_rule(pn, im)
        else:
            {"fst": R.apply_fst_rule, "elt": R.apply_elt_rule, "r": R.apply_r_rule, "fpt": R.apply_fpt_rule, "a": R.apply_a_rule}[k](pn)
        return {"op": "xreduce", "how": k, "net": case["net"], "after": gens.net_from_pm(pn, im, fm, ext=True), "ok": gens.net_consistent(pn)}
    pn, im, fm, ps, ts = gens.net_to_pm(case["net"])
    if case["how"] in ("inv", "both"):
        pn = pm4py.reduce_petri_net_invisibles(pn)
    if case["how"] in ("imp", "both"):
        pn, im, fm = pm4py.reduce_petri_net_implicit_places(pn, im, fm)
    after = gens.net_from_pm(pn, im, fm)
    return {"op": "reduce", "how": case["how"], "net": case["net"], "after": after, "ok": gens.net_consistent(pn)}


def nontrivial(case, evs):
    e = evs[0]
    return e["op"] != "exc" and (len(e["after"]["t"]) < len(case["net"]["t"]) or len(e["after"]["im"]) < len(case["net"]["im"]))
