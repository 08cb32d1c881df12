PRE = """
import pm4py
from pm4py.objects.petri_net.obj import PetriNet, Marking
from pm4py.objects.petri_net.utils import petri_utils as pu
from pm4py.objects.log.obj import EventLog, Trace, Event
import datetime
def log(*ws):
    L = EventLog()
    for i, w in enumerate(ws):
        t = Trace(attributes={"concept:name": "c%d" % i})
        for k, a in enumerate(w):
            t.append(Event({"concept:name": a, "time:timestamp": datetime.datetime(2020,1,1,tzinfo=datetime.timezone.utc)+datetime.timedelta(hours=100*i+k)}))
        L.append(t)
    return L
def net(im, fm, *ts):
    n = PetriNet("n"); P = {}
    def pl(x):
        if x not in P:
            P[x] = PetriNet.Place(x); n.places.add(P[x])
        return P[x]
    for i, (lab, pre, post) in enumerate(ts):
        t = PetriNet.Transition("t%d" % i, lab); n.transitions.add(t)
        for x, w in pre.items(): pu.add_arc_from_to(pl(x), t, n, weight=w)
        for x, w in post.items(): pu.add_arc_from_to(t, pl(x), n, weight=w)
    return n, Marking({pl(x): w for x, w in im.items()}), Marking({pl(x): w for x, w in fm.items()})
"""
BUGS = [
 dict(id="c10-loop-init", prop="C10",
  edits=[("pm4py/objects/conversion/process_tree/variants/to_petri_net.py",
"""        new_initial_place = get_new_place(counts)
        net.places.add(new_initial_place)
        init_loop_trans = get_new_hidden_trans(counts, type_trans="init_loop")
        net.transitions.add(init_loop_trans)
        add_arc_from_to(initial_place, init_loop_trans, net)
        add_arc_from_to(init_loop_trans, new_initial_place, net)
        initial_place = new_initial_place
        loop_trans""",
"""        if parent_tree.operator != Operator.SEQUENCE:
            new_initial_place = get_new_place(counts)
            net.places.add(new_initial_place)
            init_loop_trans = get_new_hidden_trans(counts, type_trans="init_loop")
            net.transitions.add(init_loop_trans)
            add_arc_from_to(initial_place, init_loop_trans, net)
            add_arc_from_to(init_loop_trans, new_initial_place, net)
            initial_place = new_initial_place
        loop_trans""")],
  needs="a loop that is the first child of a sequence which is itself an alternative of a choice (or the redo of a loop)",
  what="after iterating the loop the other alternatives of the choice become possible: the net accepts words outside the tree language",
  demo=PRE + """
t = pm4py.parse_process_tree("X( ->( *( 'a', 'b' ), 'c' ), 'd' )")
n = pm4py.convert_to_petri_net(t)
ws = pm4py.play_out(*n, parameters={"maxTraceLength": 4}, variant=None) if False else None
al = pm4py.conformance_diagnostics_alignments(log("abd", "ac", "abac", "d"), *n)
assert [a["fitness"] == 1.0 for a in al] == [False, True, True, True], al
"""),
 dict(id="c05-duplicate-labels", prop="C05",
  edits=[("pm4py/objects/petri_net/utils/synchronous_product.py",
"""                sync = PetriNet.Transition((t1.name, t2.name), (t1.label, t2.label))
                sync_net.transitions.add(sync)
                costs[sync] = sync_costs[(t1, t2)]
""",
"""                if t2_map[t2] in matched:
                    continue
                matched.add(t2_map[t2])
                sync = PetriNet.Transition((t1.name, t2.name), (t1.label, t2.label))
                sync_net.transitions.add(sync)
                costs[sync] = sync_costs[(t1, t2)]
"""), ("pm4py/objects/petri_net/utils/synchronous_product.py", """    for t1 in pn1.transitions:
        for t2 in pn2.transitions:
            if t1.label == t2.label:
                sync = PetriNet.Transition((t1.name, t2.name), (t1.label, t2.label))
                sync_net.transitions.add(sync)
                costs[""", """    matched = set()
    for t1 in pn1.transitions:
        for t2 in pn2.transitions:
            if t1.label == t2.label:
                sync = PetriNet.Transition((t1.name, t2.name), (t1.label, t2.label))
                sync_net.transitions.add(sync)
                costs[""")][::-1],
  needs="a trace that repeats an activity (the model transition is then paired with one occurrence only)",
  what="alignments of traces with repeated activities are not optimal",
  demo=PRE + """
n = pm4py.convert_to_petri_net(pm4py.parse_process_tree("*( 'a', 'b' )"))
al = pm4py.conformance_diagnostics_alignments(log("ababa"), *n)
assert al[0]["fitness"] == 1.0, al
"""),
 dict(id="c06-rounded-fitting", prop="C06",
  edits=[("pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py", """            if tr["fitness"] == 1.0:""", """            if round(tr["fitness"], 2) == 1.0:""")],
  needs="a trace of more than 200 events with one deviation",
  what="the percentage of fitting traces counts traces that do not fit",
  demo=PRE + """
n = pm4py.convert_to_petri_net(pm4py.parse_process_tree("*( 'a', 'b' )"))
f = pm4py.fitness_alignments(log("ab" * 110 + "a" + "x", "a"), *n)
assert abs(f["percentage_of_fitting_traces"] - 50) < 1e-6, f
"""),
 dict(id="c09-once-per-trace", prop="C09",
  edits=[("pm4py/algo/discovery/inductive/fall_through/activity_once_per_trace.py", """                if len(list(filter(lambda e: e == candi, t))) != 1:""", """                if len(list(filter(lambda e: e == candi, t))) > 1:""")],
  needs="a log without any cut in which an activity occurs at most once per trace but not in every trace",
  what="the discovered model forces an optional activity: some traces of the log are not replayable",
  demo=PRE + """
import itertools
bad = []
for ws in [("abcab", "acb", "bcacb", "cb"), ("abdba", "bab", "adab", "baab"), ("xaba", "bab", "abxb", "aab")]:
    L = log(*ws)
    t = pm4py.discover_process_tree_inductive(L)
    n = pm4py.convert_to_petri_net(t)
    al = pm4py.conformance_diagnostics_alignments(L, *n)
    bad += [(ws, i, str(t)) for i, a in enumerate(al) if a["fitness"] < 1]
assert not bad, bad
"""),
 dict(id="c07-initial-tokens", prop="C07",
  edits=[("pm4py/algo/conformance/tokenreplay/variants/token_replay.py", """    for place in initial_marking:
        sum_tokens_im = sum_tokens_im + initial_marking[place]
""", """    for place in initial_marking:
        sum_tokens_im = sum_tokens_im + 1
""")],
  needs="an initial marking with more than one token in a place",
  what="the produced tokens (and the fitness) are wrong",
  demo=PRE + """
n = net({"p": 2}, {"q": 2}, ("a", {"p": 1}, {"q": 1}))
r = pm4py.conformance_diagnostics_token_based_replay(log("aa", "a"), *n)
assert [x["produced_tokens"] for x in r] == [4, 3], r
"""),
 dict(id="c08-sequence-skip", prop="C08",
  edits=[("pm4py/algo/discovery/footprints/tree/variants/bottomup.py", """            if not n1[SKIPPABLE]:
                break
            j = j + 1
        i = i + 1

    # adds the start activities""", """            if not n1[SKIPPABLE] or j > i + 1:
                break
            j = j + 1
        i = i + 1

    # adds the start activities""")],
  needs="a sequence with two consecutive skippable children between two activities",
  what="the footprints of the tree miss a directly-follows relation",
  demo=PRE + """
t = pm4py.parse_process_tree("->( 'a', X( 'b', tau ), X( 'c', tau ), 'd' )")
f = pm4py.discover_footprints(t)
assert ("a", "d") in f["sequence"], f
"""),
 dict(id="c02-weak-execute", prop="C02",
  edits=[("pm4py/objects/petri_net/semantics.py", """    m_out = copy.copy(m)
    for a in t.in_arcs:
        m_out[a.source] -= a.weight
        if m_out[a.source] <= 0:
            del m_out[a.source]
    for a in t.out_arcs:
        m_out[a.target] += a.weight
    return m_out


def enabled_transitions""", """    m_out = copy.copy(m)
    for a in t.in_arcs:
        m_out[a.source] -= a.weight
        if m_out[a.source] < a.weight:
            del m_out[a.source]
    for a in t.out_arcs:
        m_out[a.target] += a.weight
    return m_out


def enabled_transitions""")],
  needs="a place with more tokens than a weighted arc takes, but fewer than twice the weight",
  what="firing a transition loses the tokens that are left over: the reachability graph is wrong",
  demo=PRE + """
n = net({"p": 3}, {"q": 1, "p": 1}, ("a", {"p": 2}, {"q": 1}))
ts = pm4py.convert_to_reachability_graph(*n)
assert sorted(s.name for s in ts.states) == ["p1q1", "p3"], ts.states
"""),
]
