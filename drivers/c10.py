"""C10: conversions between process trees, Petri nets, BPMN, POWL and DFGs."""
from vf import core, gens
from drivers import c05

MODULE = "TrC10"
RULE = "all trees with at most 4 leaves (TLC-enumerated) and random trees (all operators, duplicate labels, silent leaves, loops with several redos), sound nets, POWL models with partial orders and DFGs, every conversion; non-trivial: the language has concurrency or a cycle"
LABELS = ["a", "b", "c", "d", "e", "f"]
TYPES = None


def bpmn_from_pm(b):
    from pm4py.objects.bpmn.obj import BPMN
    nodes = sorted(b.get_nodes(), key=lambda n: str(n.get_id()))
    idx = {n: i + 1 for i, n in enumerate(nodes)}
    ns = []
    for n in nodes:
        if isinstance(n, BPMN.StartEvent):
            ty = "start"
        elif isinstance(n, BPMN.EndEvent):
            ty = "end"
        elif isinstance(n, BPMN.ParallelGateway):
            ty = "and"
        elif isinstance(n, BPMN.ExclusiveGateway):
            ty = "xor"
        elif isinstance(n, BPMN.InclusiveGateway):
            ty = "or"
        elif isinstance(n, BPMN.Task):
            ty = "task"
        else:
            raise ValueError("unexpected BPMN node %r" % (n,))
        ns.append({"ty": ty, "lab": n.get_name() if ty == "task" else ""})
    fl = sorted([idx[f.get_source()], idx[f.get_target()]] for f in b.get_flows())
    # the arcs registered at the nodes must agree with the flows
    for n in nodes:
        if sorted(idx[f.get_target()] for f in n.get_out_arcs()) != sorted(t for s, t in fl if s == idx[n]) or \
                sorted(idx[f.get_source()] for f in n.get_in_arcs()) != sorted(s for s, t in fl if t == idx[n]):
            raise ValueError("the arcs of a BPMN node disagree with the flows of the diagram")
    return {"n": ns, "f": fl}


def rpowl(rng, size, labels):
    """random POWL term: act, tau, xor, loop, po (children may be any)"""
    if size <= 1:
        return ["tau", 0] if rng.random() < .15 else ["act", rng.choice(labels)]
    op = rng.choice(["po", "po", "xor", "loop"])
    k = 2 if op == "loop" else rng.randint(2, min(4, size))
    cuts = sorted(rng.sample(range(1, size), k - 1)) if size > k else list(range(1, k))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [max(size, k)])]
    ch = [rpowl(rng, p, labels) for p in parts]
    if op != "po":
        return [op, ch]
    edges = [[i + 1, j + 1] for i in range(k) for j in range(i + 1, k) if rng.random() < .45]
    # transitive closure: POWL orders are transitive
    ch_ = True
    while ch_:
        ch_ = False
        for a, b in list(edges):
            for c, d in list(edges):
                if b == c and [a, d] not in edges:
                    edges.append([a, d])
                    ch_ = True
    perm = list(range(1, k + 1))
    rng.shuffle(perm)
    order = [0] * k
    for i, p in enumerate(perm):
        order[p - 1] = ch[i]
    return ["po", [order, sorted([perm[a - 1], perm[b - 1]] for a, b in edges)]]


def nested_po(rng):
    """a partial order with partial orders among its nodes"""
    def po(k, mk):
        p = rng.choice([.3, .5, .8])
        e = {(i, j) for i in range(1, k + 1) for j in range(i + 1, k + 1) if rng.random() < p}
        while True:
            f = e | {(a, d) for a, b in e for c, d in e if b == c}
            if f == e:
                break
            e = f
        q = rng.sample(range(1, k + 1), k)
        return ["po", [[mk() for _ in range(k)], sorted([q[a - 1], q[b - 1]] for a, b in e)]]
    pool = rng.sample(["a", "b", "c", "d", "e", "f", "g", "h", "i"], 9)
    leaf = lambda: ["act", pool.pop()] if rng.random() < .85 else ["xor", [["act", pool.pop()], ["tau", 0]]]
    left = [2]

    def inner():
        if left[0] and rng.random() < .6:
            left[0] -= 1
            return po(rng.randint(2, 3), leaf)
        return leaf()
    return po(rng.randint(2, 3), inner)


def powl_to_pm(t):
    from pm4py.objects.powl.obj import Transition, SilentTransition, StrictPartialOrder, OperatorPOWL
    from pm4py.objects.process_tree.obj import Operator
    if t[0] == "act":
        return Transition(t[1])
    if t[0] == "tau":
        return SilentTransition()
    if t[0] == "po":
        ns = [powl_to_pm(c) for c in t[1][0]]
        r = StrictPartialOrder(ns)
        for a, b in t[1][1]:
            r.add_edge(ns[a - 1], ns[b - 1])
        return r
    return OperatorPOWL(Operator.XOR if t[0] == "xor" else Operator.LOOP, [powl_to_pm(c) for c in t[1]])


def powl_from_pm(p):
    from pm4py.objects.powl.obj import Transition, StrictPartialOrder, OperatorPOWL, FrequentTransition
    from pm4py.objects.process_tree.obj import Operator
    if isinstance(p, FrequentTransition):
        raise ValueError("frequent transition")
    if isinstance(p, Transition):
        return ["tau", 0] if p.label is None else ["act", p.label]
    if isinstance(p, StrictPartialOrder):
        ns = list(p.children)
        return ["po", [[powl_from_pm(c) for c in ns], [[i + 1, j + 1] for i, a in enumerate(ns) for j, b in enumerate(ns) if p.partial_order.is_edge(a, b)]]]
    return ["xor" if p.operator == Operator.XOR else "loop", [powl_from_pm(c) for c in p.children]]


KINDS = ["tree_net", "tree_net", "tree_net", "tree_net", "tree_bordered", "tree_bpmn", "tree_bpmn_net", "tree_or", "tree_or", "tree_powl", "tree_powl_net", "net_tree", "net_tree", "net_bpmn", "net_bpmn_net",
         "powl_net", "powl_net", "powl_simplify", "dfg_net", "dfg_net2", "net_type"]


MC = [dict(module="GenTrees", cfg="MCProcs", env={"NLEAVES": "3", "NTAU": "1", "WITHOR": "1", "EMIT": "0"}),
      dict(module="GenTrees", cfg="MCProcs", env={"NLEAVES": "4", "NTAU": "1", "WITHOR": "0", "EMIT": "0"}, tier="thorough")]


def with_or(rng, t):
    """some parallel or choice nodes, none below another, become inclusive choices"""
    if t[0] in ("act", "tau"):
        return t
    if t[0] in ("par", "xor") and rng.random() < .6:
        return ["or", t[1]]
    return [t[0], [with_or(rng, c) for c in t[1]]]


def optional(t):
    """the inclusive gateways of a converted diagram let every branch be skipped"""
    if t[0] in ("act", "tau"):
        return t
    c = [optional(x) for x in t[1]]
    return ["par", [["xor", [["tau", 0], x]] for x in c]] if t[0] == "or" else [t[0], c]


def cases(rng, tier):
    small = gens.all_trees(4, 0) if tier == "quick" else gens.all_trees(4, 1)
    for i, t in enumerate(small):
        yield {"k": "tree_net", "tree": t}
        ks = ["tree_bpmn_net", "tree_powl_net", "tree_bordered", "tree_bpmn", "tree_powl"]
        yield {"k": ks[i % len(ks)], "tree": t}
    for t in gens.all_trees(3, 1, True):
        yield {"k": "tree_net", "tree": t}
    n = 500 if tier == "quick" else 6000
    for i in range(n):
        k = rng.choice(KINDS)
        if k.startswith("tree"):
            ops = gens.OPS + ["or", "ilv"] if k == "tree_net" and rng.random() < .3 else None
            t = gens.rtree(rng, LABELS, rng.randint(1, 7), ops=ops, tau=.2, dup=rng.random() < .4)
            if k == "tree_or":
                t = with_or(rng, t)
            yield {"k": k, "tree": t}
        elif k in ("net_tree", "net_bpmn", "net_bpmn_net", "net_type"):
            t = gens.rtree(rng, LABELS, rng.randint(1, 6), tau=.2, dup=rng.random() < .4)
            net = gens.net_of_tree(t)
            if rng.random() < .7:
                net = gens.unfence(rng, net)
            block = True
            if rng.random() < .3:
                p = gens.perturb(rng, net, LABELS[:3])
                if p is not None and sum(p["im"]) == 1 and sum(p["fm"]) == 1 and gens.sound(p) and max(max(m) for m in gens.reach(p)) <= 1:
                    net, block = p, False
            yield {"k": k, "net": net, "block": block}
        elif k.startswith("powl"):
            yield {"k": k, "powl": rpowl(rng, rng.randint(1, 6), LABELS)}
            if k == "powl_simplify":
                for _ in range(2):
                    yield {"k": k, "powl": nested_po(rng)}
        else:
            A = LABELS[:rng.randint(1, 4)]
            df = [[a, b] for a in A for b in A if rng.random() < .4]
            yield {"k": k, "d": {"df": df, "starts": sorted(rng.sample(A, rng.randint(1, min(2, len(A))))), "ends": sorted(rng.sample(A, rng.randint(1, min(2, len(A)))))}}


def run(case):
    import pm4py
    k = case["k"]
    ev = {"op": k, "must": True, "ok": True, "wf": False, "wfb": False, "wfp": False, "loose": False, "consistent": True}

    def netm(x):
        ev["consistent"] = gens.net_consistent(x[0])
        return {"k": "net", "net": gens.net_from_pm(*x)}

    if k.startswith("tree"):
        ev["src"] = {"k": "proc", "term": case["tree"]}
        pt = gens.tree_to_pm(case["tree"])
        if k == "tree_net":
            ev["dst"] = netm(pm4py.convert_to_petri_net(pt))
            ev["wf"] = True
        elif k == "tree_bordered":
            from pm4py.objects.conversion.process_tree.variants import to_petri_net_transition_bordered as tb
            if any_big_loop(case["tree"]):
                return []
            ev["dst"] = netm(tb.apply(pt))
            ev["wf"] = True
        elif k == "tree_bpmn":
            ev["dst"] = {"k": "bpmn", "b": bpmn_from_pm(pm4py.convert_to_bpmn(pt))}
            ev["wfb"] = True
        elif k == "tree_or":
            ev["src"] = {"k": "proc", "term": optional(case["tree"])}
            ev["dst"] = netm(pm4py.convert_to_petri_net(pm4py.convert_to_bpmn(pt)))
            ev["wf"] = True
        elif k == "tree_bpmn_net":
            ev["dst"] = netm(pm4py.convert_to_petri_net(pm4py.convert_to_bpmn(pt)))
            ev["wf"] = True
        else:
            from pm4py.objects.conversion.process_tree.variants import to_powl
            if any_big_loop(case["tree"]):
                return []
            p = to_powl.apply(pt)
            if k == "tree_powl":
                ev["dst"] = {"k": "proc", "term": powl_from_pm(p)}
                ev["wfp"] = True
            else:
                ev["dst"] = netm(pm4py.convert_to_petri_net(p))
        ev["tree_unchanged"] = gens.tree_from_pm(pt) == case["tree"]
    elif k.startswith("powl"):
        ev["src"] = {"k": "proc", "term": case["powl"]}
        p = powl_to_pm(case["powl"])
        if k == "powl_net":
            ev["dst"] = netm(pm4py.convert_to_petri_net(p))
            ev["wf"] = True
        else:
            ev["dst"] = {"k": "proc", "term": powl_from_pm(p.simplify())}
            ev["wfp"] = True
    elif k.startswith("dfg"):
        d = case["d"]
        ev["src"] = {"k": "dfg", "d": d}
        ev["loose"] = True
        dd = {tuple(p): 1 for p in d["df"]}
        sa, ea = {a: 1 for a in d["starts"]}, {a: 1 for a in d["ends"]}
        if k == "dfg_net":
            ev["dst"] = netm(pm4py.convert_to_petri_net(dd, sa, ea))
        else:
            from pm4py.objects.conversion.dfg.variants import to_petri_net_invisibles_no_duplicates as v
            ev["dst"] = netm(v.apply(dd, parameters={"start_activities": sa, "end_activities": ea}))
    else:
        pn = gens.net_to_pm(case["net"])[:3]
        ev["src"] = {"k": "net", "net": case["net"]}
        if k == "net_tree":
            r, ex = core.attempt(pm4py.convert_to_process_tree, *pn)
            ev["must"] = case["block"]
            ev["ok"] = r is not None
            ev["dst"] = {"k": "proc", "term": gens.tree_from_pm(r)} if r is not None else ev["src"]
        elif k == "net_bpmn":
            ev["dst"] = {"k": "bpmn", "b": bpmn_from_pm(pm4py.convert_to_bpmn(*pn))}
        elif k == "net_bpmn_net":
            ev["dst"] = netm(pm4py.convert_to_petri_net(pm4py.convert_to_bpmn(*pn)))
        else:
            r = pm4py.convert_petri_net_type(*pn, type="reset_inhibitor")
            ev["dst"] = netm(pm4py.convert_petri_net_type(*r, type="classic"))
    return ev


def any_big_loop(t):
    return t[0] == "loop" and len(t[1]) > 2 or t[0] not in ("act", "tau") and any(any_big_loop(c) for c in t[1])


def nontrivial(case, evs):
    s = core.canon(case)
    return '"par"' in s or '"loop"' in s or '"po"' in s or case["k"].startswith(("dfg", "net"))
