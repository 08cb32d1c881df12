"""C03: soundness and workflow-net verdicts."""
import copy
from vf import gens

MODULE = "TrC03"
RULE = "workflow nets (block structured, perturbed, state machines, marked graphs) and non-workflow nets, sound and unsound; non-trivial: workflow nets"
LABELS = ["a", "b", "c", "d", "e"]


def rand_wf(rng):
    """random net with source, sink"""
    np_ = rng.randint(2, 6)
    nt = rng.randint(2, 6)
    t = []
    for i in range(nt):
        pre, post = [0] * np_, [0] * np_
        for p in rng.sample(range(np_ - 1), min(np_ - 1, rng.choice([1, 1, 1, 2]))):
            pre[p] = 1
        for p in rng.sample(range(1, np_), min(np_ - 1, rng.choice([1, 1, 1, 2]))):
            post[p] = 1
        t.append({"lab": rng.choice(LABELS + [""]), "pre": pre, "post": post})
    im = [1] + [0] * (np_ - 1)
    fm = [0] * (np_ - 1) + [1]
    return {"t": t, "im": im, "fm": fm}


def mutate(rng, net):
    """one structural edit, behaviour arbitrary"""
    n = copy.deepcopy(net)
    np_ = len(n["im"])
    x = rng.random()
    if x < 0.3:
        u = rng.choice(n["t"])
        p = rng.randrange(np_)
        k = rng.choice(["pre", "post"])
        u[k][p] = 1 - u[k][p]
    elif x < 0.6:
        pre, post = [0] * np_, [0] * np_
        for _ in range(rng.choice([1, 1, 2])):
            pre[rng.randrange(np_)] = 1
        for _ in range(rng.choice([1, 1, 2])):
            post[rng.randrange(np_)] = 1
        n["t"].append({"lab": rng.choice(LABELS), "pre": pre, "post": post})
    elif x < 0.9:
        for u in n["t"]:
            u["pre"].append(0)
            u["post"].append(0)
        n["im"].append(0)
        n["fm"].append(0)
        for _ in range(rng.choice([1, 1, 2])):
            rng.choice(n["t"])["post"][-1] = 1
        for _ in range(rng.choice([1, 1, 2])):
            rng.choice(n["t"])["pre"][-1] = 1
    elif len(n["t"]) > 1:
        n["t"].pop(rng.randrange(len(n["t"])))
    return n


def cases(rng, tier):
    n = 700 if tier == "quick" else 4000
    for i in range(n):
        x = rng.random()
        if x < 0.25:
            blk = True
            net = gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(1, 6))), rng.random())
        elif x < 0.65:
            blk = False
            net = mutate(rng, gens.unfence(rng, gens.net_of_tree(gens.rtree(rng, LABELS, rng.randint(1, 5))), 0.9))
            if rng.random() < 0.3:
                net = mutate(rng, net)
        else:
            blk = False
            net = rand_wf(rng)
        # the coverability graphs of large unbounded nets do not terminate in reasonable time
        if len(net["t"]) > 8 and gens.reach(net, 150) is None:
            continue
        yield {"net": net, "blk": blk}


def run(case):
    import pm4py
    from pm4py.objects.petri_net.utils import check_soundness
    from pm4py.algo.analysis.woflan import algorithm as woflan
    net = case["net"]
    pn, im, fm, ps, ts = gens.net_to_pm(net)
    wf = pm4py.check_is_workflow_net(pn)
    s, diag = pm4py.check_soundness(pn, im, fm)
    # the complete diagnosis explores the short-circuited net: it may not return on unbounded nets
    sc = dict(net, t=net["t"] + [{"lab": "", "pre": net["fm"], "post": net["im"]}])
    small = gens.reach(sc, 60) is not None
    full = s if not small else woflan.apply(pn, im, fm, parameters={"return_asap_when_not_sound": False, "print_diagnostics": False})
    wf2 = check_soundness.check_wfnet(pn)
    # a search over the reachable markings: judged (and asked) only when these are finitely many
    easy = gens.reach(net, 150) is not None and check_soundness.check_easy_soundness_net_in_fin_marking(pn, im, fm)
    return {"op": "sound", "net": net, "wf": bool(wf), "wf2": bool(wf2), "sound": bool(s), "full": bool(full), "easy": bool(easy),
            "uncovered": bool(diag.get("uncovered_places_s_component"))}


def nontrivial(case, evs):
    return evs[0].get("wf", False)


def signature(case, ev, clause):
    """The S-component cover is computed heuristically: that call site is one known finding, except for the
    block-structured nets, where it must work."""
    if clause in ("sound_when_sound", "sound_when_sound_full") and not case.get("blk") and ev.get("uncovered"):
        return "woflan step 3: places reported as not covered by S-components"
    from vf.core import sha
    return sha(case)
