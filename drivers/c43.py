"""C43: filters and utilities on directly-follows graphs."""
from vf import gens

MODULE = "TrC43"
RULE = "directly-follows graphs counted from logs and random weighted graphs (several components, self loops, two-way edges, activities without edges), as dictionaries and as lists, through every filter and utility; non-trivial: at least four activities and five edges"
NAMES = ["a", "B", "c d", "d", "e", "f", "G", "h"]
KINDS = ["act", "act", "path", "path", "path", "conn", "conn", "to", "from", "contain", "clean", "variants", "obj", "util", "util"]


def from_words(n, ws):
    e, sa, ea, ac = {}, {}, {}, {}
    for w in ws:
        for a in w:
            ac[a] = ac.get(a, 0) + 1
        for x in zip(w, w[1:]):
            e[x] = e.get(x, 0) + 1
        if w:
            sa[w[0]] = sa.get(w[0], 0) + 1
            ea[w[-1]] = ea.get(w[-1], 0) + 1
    return e, sa, ea, ac


def cases(rng, tier):
    N = 1200 if tier == "quick" else 12000
    j = 0
    while j < N:
        k = KINDS[j % len(KINDS)]
        n = rng.randint(2, 8) if k in ("act", "path", "conn", "clean") else rng.randint(1, 7)
        ids = list(range(1, n + 1))
        x = rng.random()
        if x < .5 or k == "variants":
            ws = []
            base = [[rng.choice(ids) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]
            for w in base:
                ws += [w] * rng.choice([1, 1, 2, 3, 5, 9])
            e, sa, ea, ac = from_words(n, ws)
        else:
            m = rng.randint(1, 2 * n + 2)
            e = {}
            for _ in range(m):
                e[(rng.choice(ids), rng.choice(ids))] = rng.choice([1, 1, 2, 3, 5, 8, 20])
            if rng.random() < .5:
                for (a, b) in list(e):
                    if a != b and rng.random() < .5:
                        e[(b, a)] = rng.choice([1, 1, 2, 4])
            if rng.random() < .4:
                ws_ = rng.sample(range(1, 60), len(e))
                e = dict(zip(e, ws_))
            sa = {rng.choice(ids): rng.choice([1, 2, 7, 61, 62]) for _ in range(rng.randint(1, 2))}
            ea = {rng.choice(ids): rng.choice([1, 2, 7, 71, 72]) for _ in range(rng.randint(1, 2))}
            ac = {i: rng.choice([1, 2, 3, 3, 5, 9]) for i in ids} if rng.random() < .5 else dict(zip(ids, rng.sample(range(1, 40), n)))
            if k in ("act", "path", "conn"):
                # every activity on a path from the start to the end, as the filters ask for
                def reach(F, E):
                    F = set(F)
                    while True:
                        G = {b for a, b in E if a in F} | F
                        if G == F:
                            return F
                        F = G
                V = reach(sa, e) & reach(ea, [(b, a) for a, b in e])
                e = {y: v for y, v in e.items() if y[0] in V and y[1] in V}
                sa, ea, ac = [{y: v for y, v in d.items() if y in V} for d in (sa, ea, ac)]
            ws = None
        if not ac:
            continue
        c = {"k": k, "n": n, "e": [[a, b, v] for (a, b), v in e.items()], "sa": [[a, v] for a, v in sa.items()], "ea": [[a, v] for a, v in ea.items()], "ac": [[a, v] for a, v in ac.items()],
             "names": sorted(rng.sample(NAMES, n)), "typed": rng.random() < .3}
        for s in ("e", "sa", "ea", "ac"):
            rng.shuffle(c[s])
        if k in ("act", "path", "clean"):
            c["p"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
        if k == "conn":
            c["p"] = rng.choice([-8, 0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 17])
        c["all"] = k in ("path", "conn") and rng.random() < .4
        if k in ("to", "from", "contain"):
            c["a"] = rng.choice(c["ac"])[0]
        if k == "clean":
            c["common"] = [y[:2] for y in c["e"] if rng.random() < .15] if rng.random() < .4 else None
        if k == "clean" or k == "util":
            c["aslist"] = rng.random() < .4
        if k == "util":
            c["list"] = [i for i in ids if rng.random() < .7] or [1]
            rng.shuffle(c["list"])
            if not c["e"]:
                continue
        if k == "variants":
            c["ws"] = ws + ([[]] if rng.random() < .1 else [])
        j += 1
        yield c


def run(c):
    from copy import deepcopy
    from pm4py.algo.filtering.dfg import dfg_filtering as F
    from pm4py.objects.dfg.utils import dfg_utils as U
    from pm4py.objects.dfg import util as V
    from pm4py.objects.dfg.obj import DFG
    from pm4py.util import constants
    k, nm = c["k"], c["names"]
    ix = {s: i + 1 for i, s in enumerate(nm)}
    N = lambda i: nm[i - 1]
    dfg = {(N(a), N(b)): v for a, b, v in c["e"]}
    sa, ea, ac = [{N(a): v for a, v in c[s]} for s in ("sa", "ea", "ac")]
    G = lambda e, s, t, a: dict(n=c["n"], e=sorted([ix[x], ix[y], int(v)] for (x, y), v in e.items()), sa=sorted([ix[x], int(v)] for x, v in s.items()), ea=sorted([ix[x], int(v)] for x, v in t.items()), ac=sorted([ix[x], int(v)] for x, v in a.items()))
    r = dict(op=k, g=G(dfg, sa, ea, ac), p=c.get("p", 0), all=c["all"], u=0)
    orig = deepcopy((dfg, sa, ea, ac))
    same = lambda: (dfg, sa, ea, ac) == orig
    kv = lambda d: [[ix[a], sorted([ix[b], int(v)] for b, v in x.items())] for a, x in d.items()]
    ks = lambda d: [[ix[a], sorted(ix[b] for b in x)] for a, x in d.items()]
    I = lambda s: [ix[a] for a in s]
    if k in ("act", "path", "conn"):
        f = {"act": F.filter_dfg_on_activities_percentage, "path": F.filter_dfg_on_paths_percentage, "conn": F.filter_dfg_keep_connected}[k]
        out = f(dfg, sa, ea, ac, c["p"] / (16 if k == "conn" else 8), **({"keep_all_activities": True} if c["all"] else {}))
        r["out"] = G(*out)
    elif k in ("to", "from", "contain"):
        f = {"to": F.filter_dfg_to_activity, "from": F.filter_dfg_from_activity, "contain": F.filter_dfg_contain_activity}[k]
        r.update(out=G(*f(dfg, sa, ea, ac, N(c["a"]))), a=c["a"])
    elif k == "clean":
        d = list(dfg.items()) if c["aslist"] else dfg
        par = None
        if c["common"] is not None:
            com = [(N(a), N(b)) for a, b in c["common"]]
            par = {constants.PARAM_MOST_COMMON_PATHS: [(x, dfg[x]) for x in com] if c["aslist"] else com}
        out = F.clean_dfg_based_on_noise_thresh(d, list(ac), c["p"] / 8, parameters=par)
        r.update(rep=[[ix[a], ix[b], int(v)] for (a, b), v in (out if c["aslist"] and dfg else out.items() if dfg else [])], common=c["common"] or [])
    elif k == "variants":
        vs = [tuple(N(a) for a in w) for w in c["ws"]]
        coll = {v: vs.count(v) for v in vs} if c["typed"] else vs
        d, acts, s, t = U.get_dfg_sa_ea_act_from_variants(coll)
        r.update(w=c["ws"], out=G(d, s, t, {}), acts=I(acts))
    elif k == "obj":
        D = DFG(dfg, sa, ea)
        pre, post = V.get_transitive_relations(D)
        nx = V.as_nx_graph(D)
        g_, s_, e_ = D
        r["u"] = dict(vertices=I(V.get_vertices(D)), out=kv(V.get_outgoing_arcs(D)), inc=kv(V.get_incoming_arcs(D)), src=I(V.get_source_vertices(D)), snk=I(V.get_sink_vertices(D)), pre=ks(pre), post=ks(post),
                      freq=[[ix[a], int(v)] for a, v in V.get_vertex_frequencies(D).items()], nx=[I(nx.nodes), [[ix[a], ix[b]] for a, b in nx.edges]], edges=[[ix[a], ix[b]] for a, b in V.get_edges(D)],
                      iter=(g_, s_, e_) == (dfg, sa, ea) and (type(g_), type(s_), type(e_)) == (dict, dict, dict) and (dict(D.graph), dict(D.start_activities), dict(D.end_activities)) == (dfg, sa, ea) and tuple(DFG()) == ({}, {}, {}))
    elif k == "util":
        d = list(dfg.items()) if c["aslist"] else dfg
        L = [N(a) for a in c["list"]]
        out, inc = U.get_outgoing_edges(d), U.get_ingoing_edges(d)
        mat, corr = U.get_dfg_np_matrix(d)
        dr = U.get_activities_direction(d, L)
        u = dict(out=kv(out), inc=kv(inc), isa=I(U.infer_start_activities(d)), iea=I(U.infer_end_activities(d)), acts=I(U.get_activities_from_dfg(d)), max=[int(U.get_max_activity_count(d, a)) for a in nm],
                 maxall=int(U.max_occ_all_activ(d)), maxsome=int(U.max_occ_among_specif_activ(d, L)), sumstart=int(U.sum_start_activities_count(d)), sumend=int(U.sum_end_activities_count(d)),
                 sumact=int(U.sum_activities_count(d, L)), sumact2=int(U.sum_activities_count(d, L, enable_halving=False)), loops=I(U.get_activities_self_loop(d)), mat=[[int(v) for v in row] for row in mat],
                 dir=[[ix[a], gens.frac(v)] for a, v in dr.items()], dirlist=[[ix[a], gens.frac(v)] for a, v in U.get_activities_dirlist(dr)], comp=[sorted(I(x)) for x in U.get_connected_components(inc, out, L)])
        assert [corr[i] for i in range(len(corr))] == U.get_activities_from_dfg(d)
        if c["aslist"]:
            sub = U.filter_dfg_on_act(d, L)
            trip = lambda z: [[ix[a], ix[b], int(v)] for (a, b), v in z]
            u.update(proj=trip(sub), neg=trip(U.negate(d)), entered=I(U.infer_start_activities_from_prev_connections_and_current_dfg(d, sub, L, include_self=False)),
                     left=I(U.infer_end_activities_from_succ_connections_and_current_dfg(d, sub, L, include_self=False)), outs=I(U.get_outputs_of_outside_activities_going_to_start_activities(d, sub, L)),
                     ins=I(U.get_inputs_of_outside_activities_reached_by_end_activities(d, sub, L)), nexts=[I(U.get_all_activities_connected_as_output_to_activity(d, a)) for a in nm],
                     prevs=[I(U.get_all_activities_connected_as_input_to_activity(d, a)) for a in nm])
        else:
            tpre, tpost = U.get_transitive_relations(d, nm)
            u.update(succ=ks(U.get_successors(d, nm)), pred=ks(U.get_predecessors(d, nm)), tpre=ks(tpre), tpost=ks(tpost), alpha=I(U.get_alphabet(d)))
        r.update(u=u, list=c["list"], aslist=c["aslist"])
    r["same"] = same()
    return r


def nontrivial(c, evs):
    return c["n"] >= 4 and len(c["e"]) >= 5
