"""C11: text, PTML, simplification and normal forms of process trees and POWL models."""
import os, tempfile
from vf import core, gens
from drivers.c10 import rpowl, powl_to_pm, powl_from_pm

MODULE = "TrC11"
RULE = "all trees with at most 4 leaves (TLC-enumerated), random trees (all operators, duplicate labels, many silent leaves, labels with operator and bracket characters) x text / indented text / PTML / fold / reduce / binary / sort / equality, and POWL models x text; non-trivial: the tree has an operator"
LABELS = ["a", "b", "c", "d", "e", "f"]
ODD = ["X", "tau", "a b", "-> (", ")", ",", "a, b", "*", "O( x )", "+", "<>", "tau1", "X(", "9", "a\"b", "<&>", " ' ".strip("' ") or "z", "\u00e9\u03c4"]
POWL_ODD = ["x", "a b", "a-b", "ab", "b", "a", "9", "a>b", "bXa", "node", "b tau", "ba"]


def swap(rng, t):
    """reorders the children of commutative operators"""
    if t[0] in ("act", "tau"):
        return t
    ch = [swap(rng, c) for c in t[1]]
    if t[0] in ("xor", "par", "or"):
        rng.shuffle(ch)
    return [t[0], ch]


def tweak(rng, t):
    """one small change"""
    if t[0] in ("act", "tau") or rng.random() < .2:
        return rng.choice([["act", rng.choice(LABELS)], ["tau", 0], t])
    ch = list(t[1])
    x = rng.random()
    i = rng.randrange(len(ch))
    if x < .6:
        ch[i] = tweak(rng, ch[i])
    elif x < .75 and len(ch) > 2:
        ch.pop(i)
    elif x < .9:
        rng.shuffle(ch)
    else:
        return [rng.choice(["seq", "xor", "par"]), ch]
    return [t[0], ch]


def distinct(t):
    if t[0] in ("act", "tau"):
        return True
    ch = t[1][0] if t[0] == "po" else t[1]
    return (t[0] != "po" or len(set(core.canon(c) for c in ch)) == len(ch)) and all(distinct(c) for c in ch)


def cases(rng, tier):
    for i, t in enumerate(gens.all_trees(3, 2, True) + (gens.all_trees(4, 2) if tier == "thorough" else [])):
        yield {"k": "fold", "tree": t}
        yield {"k": "ptml" if i % 2 and '"ilv"' not in core.canon(t) else "text", "tree": t}
    n = 1300 if tier == "quick" else 9000
    for _ in range(n):
        k = rng.choice(["text", "ptml", "ptml", "fold", "fold", "fold", "binary", "sort", "equal", "equal", "measure", "powltext", "powltext", "powltext"])
        if k == "powltext":
            t = rpowl(rng, rng.randint(1, 7), rng.choice([LABELS, POWL_ODD, ["a", "ab", "abc", "a b", "b", "ba"]]))
            if distinct(t):        # the text refers to the nodes of an order by their text
                yield {"k": k, "tree": t}
            continue
        odd = k in ("text", "ptml") and rng.random() < .5
        ops = gens.OPS + (["or", "ilv"] if k in ("text", "fold", "equal") else ["or"] if k in ("ptml", "binary", "measure", "sort") else [])
        t = gens.rtree(rng, ODD if odd else LABELS, rng.randint(1, 8), ops=ops if rng.random() < .4 else None, tau=rng.choice([.1, .3, .6]), dup=rng.random() < .4)
        c = {"k": k, "tree": t, "seed": rng.randint(0, 10 ** 6)}
        if k == "equal":
            c["other"] = swap(rng, t) if rng.random() < .5 else tweak(rng, t)
        yield c


def parents_ok(p, parent=None):
    return p.parent is parent and all(parents_ok(c, p) for c in (p.children or []))


def run(case):
    import pm4py, random
    from pm4py.objects.process_tree.utils import generic
    k, t = case["k"], case["tree"]
    if k == "powltext":
        p = powl_to_pm(t)
        q = pm4py.parse_powl_model_string(str(p))
        return {"op": k, "tree": t, "out": powl_from_pm(q), "equal": bool(p.equal_content(q)) and str(p) == str(q)}
    p = gens.tree_to_pm(t)
    F = gens.tree_from_pm
    if k == "text":
        if t[0] == "act":
            return []      # a single activity is printed without quotes
        # the indented text is only meant for labels without brackets and commas
        brackets = any(ch in lab for lab in gens.tree_labels(t) for ch in "(){},")
        return {"op": k, "tree": t, "out": [F(pm4py.parse_process_tree(s)) for s in (str(p), repr(p), p.to_string(indent=True) if not brackets else str(p), str(p).replace("tau", "\u03c4") if "tau" not in "".join(gens.tree_labels(t)) else str(p))]}
    if k == "ptml":
        from pm4py.objects.process_tree.exporter import exporter
        from pm4py.objects.process_tree.importer import importer
        d = tempfile.mkdtemp()
        fn = os.path.join(d, "t.ptml")
        pm4py.write_ptml(p, fn)
        q = pm4py.read_ptml(fn)
        s = exporter.serialize(p)
        q2 = importer.deserialize(s)
        os.remove(fn)
        if not (parents_ok(q) and parents_ok(q2)):
            raise ValueError("inconsistent parents")
        return {"op": k, "tree": t, "out": [F(q), F(q2)], "after": F(p)}
    if k == "fold":
        r = generic.fold(p)
        evs = [{"op": k, "tree": t, "out": F(r), "after": F(p), "parents": parents_ok(r)}]
        q = generic.reduce_tau_leafs(gens.tree_to_pm(t))
        evs.append({"op": "reduce", "tree": t, "out": F(q)})
        return evs
    if k == "binary":
        return {"op": k, "tree": t, "out": F(generic.process_tree_to_binary_process_tree(p))}
    if k == "sort":
        generic.tree_sort(p)
        t2 = swap(random.Random(case["seed"]), t)
        if len(gens.tree_labels(t)) < sum(1 for x in core.canon(t).split('"act"')) - 1 or '"tau"' in core.canon(t):
            t2 = t         # the canonical order is only claimed when the subtrees have different activities
        q = gens.tree_to_pm(t2)
        generic.tree_sort(q)
        return {"op": k, "tree": t, "out": F(p), "out2": F(q) if '"or"' not in core.canon(t) else F(p)}
    if k == "equal":
        q = gens.tree_to_pm(case["other"])
        return {"op": k, "tree": t, "other": case["other"], "eq": bool(p == q), "hash": hash(p) == hash(q),
                "seq": bool(generic.structurally_language_equal(p, q))}
    # measure
    r = random.Random(case["seed"])
    lv = leaves(p)
    lca = []
    for _ in range(3):
        a, b = r.choice(lv), r.choice(lv)
        if a is b:
            continue
        x = generic.common_ancestor(a, b)
        lca.append([[idx(p, x)], [idx(p, y) for y in path(a)[1:]], [idx(p, y) for y in path(b)[1:]]])
    return {"op": k, "tree": t, "height": generic.get_process_tree_height(p), "leaves": [x.label or "" for x in lv], "lca": lca,
            "n": len(generic.get_leaves_as_tuples(p))}


def leaves(p):
    return [p] if not p.children else [x for c in p.children for x in leaves(c)]


def path(a):
    return [a] + (path(a.parent) if a.parent is not None else [])


def idx(p, x):
    """position of a node in the preorder of the tree"""
    out = []

    def go(n):
        out.append(id(n))
        for c in n.children:
            go(c)
    go(p)
    return out.index(id(x)) if x is not None and id(x) in out else -1


def nontrivial(case, evs):
    return case["tree"][0] not in ("act", "tau")
