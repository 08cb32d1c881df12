"""C35: histories of analysis calls on shared inputs."""
import hashlib, json, re
from vf import core, gens, ocels

MODULE = "TrC35"
RULE = "random histories of analysis calls (every public discovery, conformance, filtering, statistics, conversion, organisational, machine-learning, object-centric and export function) on one shared set of inputs (dataframe or event log, Petri net, tree, BPMN, POWL, object-centric log, discovered artefacts); every input compared before and after each call, and each result with the result on fresh inputs; non-trivial: at least four calls of the history answered"
CASE_TIMEOUT = 120
NCALLS = 205


# ------------------------------------------------------------------ observable content
def frame(d):
    """Content of a dataframe, as text parts."""
    d = d.copy(deep=True)
    return {"columns": [str(c) for c in d.columns], "types": [str(x) for x in d.dtypes], "index": [str(x) for x in d.index], "rows": [[str(x) for x in r] for r in d.to_numpy().tolist()], "attrs": sorted("%s=%s" % (k, v) for k, v in d.attrs.items())}


def content(o, depth=0):
    """Deterministic content of a result or input (unordered containers sorted, generated names left out)."""
    import pandas as pd, numpy as np
    from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.process_tree.obj import ProcessTree
    from pm4py.objects.bpmn.obj import BPMN
    from pm4py.objects.ocel.obj import OCEL
    if depth > 12:
        return "..."
    r = lambda x: content(x, depth + 1)
    if o is None or isinstance(o, (str, bool)):
        return str(o)
    if isinstance(o, (int, np.integer)):
        return str(int(o))
    if isinstance(o, (float, np.floating)):
        return "%.6g" % float(o)
    if isinstance(o, pd.DataFrame):
        return frame(o)
    if isinstance(o, pd.Series):
        return [str(x) for x in o]
    if isinstance(o, np.ndarray):
        return r(o.tolist())
    if isinstance(o, EventLog):
        return {"traces": [r(t) for t in o], "attributes": r(o.attributes), "properties": r(dict(o.properties)), "classifiers": r(dict(o.classifiers)), "extensions": r(dict(o.extensions)), "omni": r(dict(o.omni_present))}
    if isinstance(o, EventStream):
        return [r(e) for e in o]
    if isinstance(o, Trace):
        return {"attributes": r(o.attributes), "events": [r(e) for e in o]}
    if isinstance(o, Event):
        return sorted("%s=%s" % (k, v) for k, v in dict(o).items())
    if isinstance(o, PetriNet):
        t = lambda x: x.label if x.label else "~"
        return {"places": len(o.places), "transitions": sorted("%s %s %s" % (t(x), len(x.in_arcs), len(x.out_arcs)) for x in o.transitions), "arcs": len(o.arcs)}
    if isinstance(o, Marking):
        return sorted(str(v) for v in o.values())
    if isinstance(o, ProcessTree):
        def tr(x):
            k = [tr(y) for y in x.children]
            op = x.operator.name if x.operator else None
            return "%s(%s)" % (op, ",".join(sorted(k) if op in ("XOR", "PARALLEL", "OR", "INTERLEAVING") else k)) if op else str(x.label)
        return tr(o)
    if isinstance(o, BPMN):
        f = lambda n: "%s/%s" % (type(n).__name__, n.name)
        return {"nodes": sorted(f(n) for n in o.get_nodes()), "flows": sorted("%s>%s" % (f(x.source), f(x.target)) for x in o.get_flows())}
    if isinstance(o, OCEL):
        return {k: frame(getattr(o, k)) for k in ("events", "objects", "relations", "o2o", "e2e", "object_changes")} | {"globals": r(o.globals)}
    if isinstance(o, dict):
        return sorted((json.dumps(r(k), default=str), r(v)) for k, v in o.items())
    if isinstance(o, (set, frozenset)):
        return sorted(json.dumps(r(x), default=str) for x in o)
    if isinstance(o, (list, tuple)):
        return [r(x) for x in o]
    if hasattr(o, "total_seconds") or hasattr(o, "isoformat"):
        return str(o)
    return type(o).__name__


def exact(o):
    """Content of an input, with everything a user can observe: also names, weights, and the structure of models."""
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.objects.bpmn.obj import BPMN
    from pm4py.objects.process_tree.obj import ProcessTree
    if isinstance(o, tuple) and len(o) == 3 and isinstance(o[0], PetriNet):
        n, im, fm = o
        return {"p": sorted(x.name for x in n.places), "t": sorted("%s:%s:%s:%s" % (x.name, x.label, len(x.in_arcs), len(x.out_arcs)) for x in n.transitions),
                "a": sorted("%s>%s:%s" % (x.source.name, x.target.name, x.weight) for x in n.arcs), "deg": sorted("%s:%s:%s" % (x.name, len(x.in_arcs), len(x.out_arcs)) for x in n.places),
                "im": sorted("%s:%s" % (x.name, v) for x, v in im.items()), "fm": sorted("%s:%s" % (x.name, v) for x, v in fm.items())}
    if isinstance(o, ProcessTree):
        up = lambda x: [[y.parent is x, up(y)] for y in x.children]
        return [repr(o), up(o), o.parent is None]
    if isinstance(o, BPMN):
        return {"n": sorted("%s/%s/%s" % (n.id, type(n).__name__, n.name) for n in o.get_nodes()), "f": sorted("%s>%s" % (x.source.id, x.target.id) for x in o.get_flows()),
                "d": sorted("%s %s %s" % (n.id, len(n.get_in_arcs()), len(n.get_out_arcs())) for n in o.get_nodes())}
    if type(o).__module__.startswith("pm4py.objects.powl"):
        return repr(o)
    return content(o)


def sha(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Inputs:
    """The shared inputs of a history, built from the case alone."""
    def __init__(self, c):
        self.c = c
        self.a, self.b = c["ab"]

    def __getattr__(self, k):               # built when first used
        import pm4py
        c = self.c
        raw = lambda: gens.to_df(c["log"], None, c["order"])
        M = {"df": lambda: pm4py.format_dataframe(raw()) if c["attrs"] else raw(),
             "evlog": lambda: gens.to_eventlog(c["log"]),
             "log": lambda: self.df if c["form"] == "df" else self.evlog,
             "net": lambda: gens.net_to_pm(c["net"])[:3],
             "tree": lambda: gens.tree_to_pm(c["tree"]),
             "ocel": lambda: ocels.build(c["ocel"]),
             "bpmn": lambda: pm4py.convert_to_bpmn(gens.tree_to_pm(c["tree"])),
             "powl": lambda: pm4py.parse_powl_model_string(c["powl"]),
             "dfg": lambda: pm4py.discover_dfg(raw()),
             "skeleton": lambda: pm4py.discover_log_skeleton(raw(), noise_threshold=0.0),
             "declare": lambda: pm4py.discover_declare(raw(), allowed_templates={"existence", "precedence", "response", "absence"}),
             "profile": lambda: pm4py.discover_temporal_profile(raw()),
             "fp": lambda: pm4py.discover_footprints(gens.to_eventlog(c["log"])),
             "lang": lambda: {("a", "b"): .5, ("a",): .5},
             "vals": lambda: ["a", "zz"],
             "stream": lambda: gens.to_stream(c["log"], None, c["order"])}
        if k not in M:
            raise AttributeError(k)
        v = M[k]()
        setattr(self, k, v)
        return v

    NAMES = ["log", "net", "tree", "ocel", "bpmn", "powl", "dfg", "skeleton", "declare", "profile", "fp", "lang", "vals", "stream"]

    def snapshot(self):
        return {k: exact(getattr(self, k)) for k in self.NAMES}


def calls():
    """name -> (function of the inputs, canonical view of the result or None when the result is not determined)."""
    import pm4py
    from pm4py.util import constants
    P = {}

    def add(name, f, view=lambda x: x):
        P[name] = (f, view)
    L = lambda s: s.log
    none = None
    for n in ("dfg", "performance_dfg", "petri_net_alpha", "petri_net_alpha_plus", "petri_net_inductive", "process_tree_inductive", "petri_net_heuristics", "bpmn_inductive", "footprints",
              "eventually_follows_graph", "temporal_profile", "log_skeleton", "declare", "batches"):
        add("discover_" + n, lambda s, n=n: getattr(pm4py, "discover_" + n)(s.log), none if n in ("petri_net_heuristics", "petri_net_alpha_plus") else lambda x: x)
    add("discover_dfg_typed", lambda s: pm4py.discover_dfg_typed(s.df if s.c["form"] == "df" else s.log.__class__ and pm4py.convert_to_dataframe(s.log)), none)
    add("discover_inductive_noise", lambda s: pm4py.discover_process_tree_inductive(s.log, noise_threshold=0.25))
    add("discover_inductive_dfg", lambda s: pm4py.discover_process_tree_inductive(pm4py.discover_dfg_typed(s.df)) if s.c["form"] == "df" else None)
    add("discover_heuristics_net", lambda s: pm4py.discover_heuristics_net(s.log), none)
    add("discover_transition_system", lambda s: pm4py.discover_transition_system(s.log), none)
    add("discover_prefix_tree", lambda s: pm4py.discover_prefix_tree(s.log), none)
    add("discover_powl", lambda s: pm4py.discover_powl(s.log), none)
    add("discover_ilp", lambda s: pm4py.discover_petri_net_ilp(s.log), none)
    add("discover_performance_dfg_business", lambda s: pm4py.discover_performance_dfg(s.log, business_hours=True))
    add("minimum_self_distance", lambda s: pm4py.get_minimum_self_distances(s.log))
    add("msd_witnesses", lambda s: pm4py.get_minimum_self_distance_witnesses(s.log))
    for n in ("start_activities", "end_activities", "event_attributes", "trace_attributes", "variants", "variants_as_tuples", "case_arrival_average", "rework_cases_per_activity", "case_overlap", "cycle_time",
              "service_time", "all_case_durations"):
        add("get_" + n, lambda s, n=n: getattr(pm4py, "get_" + n)(s.log), (lambda x: sorted(map(str, x))) if n.endswith("attributes") else lambda x: x)
    add("get_service_time_intervals", lambda s: pm4py.get_service_time(s.log, start_timestamp_key="start_timestamp" if "s" in s.c["log"][0]["ev"][0] else "time:timestamp"))
    add("get_event_attribute_values", lambda s: pm4py.get_event_attribute_values(s.log, "org:resource"))
    add("get_trace_attribute_values", lambda s: pm4py.get_trace_attribute_values(s.log, "case:cattr" if s.c["form"] == "df" else "cattr"))
    add("get_variants_paths_duration", lambda s: pm4py.get_variants_paths_duration(s.log))
    add("split_by_process_variant", lambda s: [(v, len(d)) for v, d in pm4py.split_by_process_variant(s.log)])
    add("get_stochastic_language", lambda s: pm4py.get_stochastic_language(s.log))
    add("get_case_duration", lambda s: pm4py.get_case_duration(s.log, s.c["log"][0]["id"]))
    add("get_activity_position_summary", lambda s: pm4py.get_activity_position_summary(s.log, s.a))
    add("tbr", lambda s: pm4py.conformance_diagnostics_token_based_replay(s.log, *s.net), lambda x: [(y["trace_fitness"], y["missing_tokens"], y["consumed_tokens"], y["remaining_tokens"], y["produced_tokens"]) for y in x])
    add("alignments", lambda s: pm4py.conformance_diagnostics_alignments(s.log, *s.net), lambda x: [None if y is None else y["cost"] for y in x])
    add("alignments_tree", lambda s: pm4py.conformance_diagnostics_alignments(s.log, s.tree), lambda x: [y["cost"] for y in x])
    add("alignments_dfg", lambda s: pm4py.conformance_diagnostics_alignments(s.log, *s.dfg), lambda x: [y["cost"] for y in x])
    add("alignments_log", lambda s: pm4py.conformance_diagnostics_alignments(s.log, s.log), none)
    add("fitness_tbr", lambda s: pm4py.fitness_token_based_replay(s.log, *s.net))
    add("fitness_alignments", lambda s: pm4py.fitness_alignments(s.log, *s.net))
    add("precision_tbr", lambda s: pm4py.precision_token_based_replay(s.log, *s.net), none)
    add("precision_alignments", lambda s: pm4py.precision_alignments(s.log, *s.net), none)
    add("generalization_tbr", lambda s: pm4py.generalization_tbr(s.log, *s.net), none)
    add("conformance_footprints", lambda s: pm4py.conformance_diagnostics_footprints(s.log, *s.net))
    add("fitness_footprints", lambda s: pm4py.fitness_footprints(s.log, s.tree))
    add("precision_footprints", lambda s: pm4py.precision_footprints(s.log, s.tree))
    add("conformance_footprints_fp", lambda s: pm4py.conformance_diagnostics_footprints(s.fp, s.tree))
    add("check_is_fitting", lambda s: [pm4py.check_is_fitting(s.evlog[0], *s.net), pm4py.check_is_fitting(s.evlog[0], s.tree)])
    add("conformance_temporal_profile", lambda s: pm4py.conformance_temporal_profile(s.log, s.profile))
    add("conformance_declare", lambda s: pm4py.conformance_declare(s.log, s.declare))
    add("conformance_log_skeleton", lambda s: pm4py.conformance_log_skeleton(s.log, s.skeleton))
    add("replay_prefix_tbr", lambda s: pm4py.replay_prefix_tbr([s.a], *s.net))
    add("filter_start", lambda s: pm4py.filter_start_activities(s.log, s.vals))
    add("filter_end", lambda s: pm4py.filter_end_activities(s.log, s.vals, retain=False))
    add("filter_event_values", lambda s: pm4py.filter_event_attribute_values(s.log, "concept:name", s.vals, level="event"))
    add("filter_event_values_case", lambda s: pm4py.filter_event_attribute_values(s.log, "org:resource", ["R1"], level="case"))
    add("filter_trace_values", lambda s: pm4py.filter_trace_attribute_values(s.log, "case:cattr" if s.c["form"] == "df" else "cattr", ["x"]))
    add("filter_variants", lambda s: pm4py.filter_variants(s.log, [(s.a, s.b)]))
    add("filter_df_relation", lambda s: pm4py.filter_directly_follows_relation(s.log, [(s.a, s.b)]))
    add("filter_ef_relation", lambda s: pm4py.filter_eventually_follows_relation(s.log, [(s.a, s.b)]))
    for m in ("events", "traces_contained", "traces_intersecting"):
        add("filter_time_" + m, lambda s, m=m: pm4py.filter_time_range(s.log, "2020-01-01 00:00:00", "2020-01-02 01:00:00", mode=m))
    add("filter_between", lambda s: pm4py.filter_between(s.log, s.a, s.b))
    add("filter_case_size", lambda s: pm4py.filter_case_size(s.log, 2, 3))
    add("filter_case_performance", lambda s: pm4py.filter_case_performance(s.log, 1, 5000))
    add("filter_rework", lambda s: pm4py.filter_activities_rework(s.log, s.a))
    add("filter_paths_performance", lambda s: pm4py.filter_paths_performance(s.log, (s.a, s.b), 0, 5000))
    add("filter_top_k", lambda s: pm4py.filter_variants_top_k(s.log, 1))
    add("filter_coverage", lambda s: pm4py.filter_variants_by_coverage_percentage(s.log, 0.25))
    add("filter_max_coverage", lambda s: pm4py.filter_variants_by_maximum_coverage_percentage(s.log, 0.25))
    add("filter_prefixes", lambda s: pm4py.filter_prefixes(s.log, s.a))
    add("filter_suffixes", lambda s: pm4py.filter_suffixes(s.log, s.a))
    add("filter_four_eyes", lambda s: pm4py.filter_four_eyes_principle(s.log, s.a, s.b))
    add("filter_diff_resources", lambda s: pm4py.filter_activity_done_different_resources(s.log, s.a))
    add("filter_segments", lambda s: pm4py.filter_trace_segments(s.log, [["...", s.a, "..."]]))
    add("filter_relative_occurrence", lambda s: pm4py.filter_log_relative_occurrence_event_attribute(s.log, 0.25))
    add("handover", lambda s: sorted(pm4py.discover_handover_of_work_network(s.log).connections.items()))
    add("handover_beta", lambda s: sorted(pm4py.discover_handover_of_work_network(s.log, beta=.5).connections.items()))
    add("working_together", lambda s: sorted(pm4py.discover_working_together_network(s.log).connections.items()))
    add("subcontracting", lambda s: sorted(pm4py.discover_subcontracting_network(s.log).connections.items()))
    add("similarity", lambda s: pm4py.discover_activity_based_resource_similarity(s.log) if len({e["a"] for c in s.c["log"] for e in c["ev"]}) > 1 else 0, none)
    add("roles", lambda s: pm4py.discover_organizational_roles(s.log), none)
    add("network_analysis", lambda s: pm4py.discover_network_analysis(s.log, "case:concept:name", "case:concept:name", "org:resource", "org:resource", "concept:name"), none)
    add("to_event_log", lambda s: pm4py.convert_to_event_log(s.log))
    add("to_event_stream", lambda s: pm4py.convert_to_event_stream(s.log))
    add("to_dataframe", lambda s: pm4py.convert_to_dataframe(s.log))
    add("stream_to_log", lambda s: pm4py.convert_to_event_log(s.stream))
    add("stream_to_df", lambda s: pm4py.convert_to_dataframe(s.stream))
    add("log_to_ocel", lambda s: pm4py.convert_log_to_ocel(s.log, object_types=["case:concept:name", "org:resource"], additional_event_attributes=["val"]))
    add("log_to_networkx", lambda s: len(pm4py.convert_log_to_networkx(s.log, case_id_key="concept:name").nodes), none)
    add("time_intervals", lambda s: pm4py.convert_log_to_time_intervals(s.log, (s.a, s.b)))
    add("insert_artificial", lambda s: pm4py.insert_artificial_start_end(s.log))
    add("insert_waiting", lambda s: pm4py.insert_case_service_waiting_time(s.log))
    add("insert_arrival", lambda s: pm4py.insert_case_arrival_finish_rate(s.log))
    add("sample_cases", lambda s: pm4py.sample_cases(s.log, 1), none)
    add("sample_events", lambda s: pm4py.sample_events(s.log, 1), none)
    add("project", lambda s: pm4py.project_on_event_attribute(s.log))
    add("rebase", lambda s: pm4py.rebase(s.log, case_id="org:resource"))
    add("serialize_log", lambda s: len(pm4py.serialize(s.log)[1]), none)
    add("split_train_test", lambda s: pm4py.split_train_test(s.log), none)
    add("prefixes_ml", lambda s: pm4py.get_prefixes_from_log(s.log, 2))
    add("features", lambda s: pm4py.extract_features_dataframe(s.log), none)
    add("outcome_enriched", lambda s: pm4py.extract_outcome_enriched_dataframe(s.log), none)
    add("temporal_features", lambda s: pm4py.extract_temporal_features_dataframe(s.log), none)
    for v in ("next_activity", "next_time", "remaining_time"):
        add("target_" + v, lambda s, v=v: pm4py.extract_target_vector(s.log, v)[0])
    for v in ("dfg", "variants", "event_stream", "log_attributes", "log_features"):
        add("abstract_" + v, lambda s, v=v: getattr(pm4py.llm, "abstract_" + v)(s.log), none)
    # models
    add("net_to_tree", lambda s: pm4py.convert_to_process_tree(*s.net), none)
    add("net_to_bpmn", lambda s: pm4py.convert_to_bpmn(*s.net))
    add("net_to_ts", lambda s: len(pm4py.convert_to_reachability_graph(*s.net).states))
    add("net_to_networkx", lambda s: len(pm4py.convert_petri_net_to_networkx(*s.net).nodes))
    add("net_type", lambda s: pm4py.convert_petri_net_type(*s.net, type="reset"), none)
    add("soundness", lambda s: pm4py.check_soundness(*s.net)[0], none)
    add("marking_equation", lambda s: pm4py.solve_marking_equation(*s.net))
    add("sync_net", lambda s: pm4py.construct_synchronous_product_net(s.evlog[0], *s.net)[0])
    add("is_wf", lambda s: pm4py.check_is_workflow_net(s.net[0]))
    add("decomposition", lambda s: len(pm4py.maximal_decomposition(*s.net)))
    add("simplicity", lambda s: pm4py.simplicity_petri_net(*s.net))
    add("simplicity_cardoso", lambda s: pm4py.simplicity_petri_net(*s.net, variant="extended_cardoso"))
    add("enabled", lambda s: sorted(str(t.label) for t in pm4py.get_enabled_transitions(s.net[0], s.net[1])))
    add("play_out_net", lambda s: len(pm4py.play_out(*s.net, parameters={})), none)
    add("play_out_tree", lambda s: len(pm4py.play_out(s.tree)), none)
    add("play_out_dfg", lambda s: len(pm4py.play_out(*s.dfg)), none)
    add("footprints_net", lambda s: pm4py.discover_footprints(*s.net))
    add("footprints_tree", lambda s: pm4py.discover_footprints(s.tree))
    add("tree_to_net", lambda s: pm4py.convert_to_petri_net(s.tree)[0])
    add("tree_to_bpmn", lambda s: pm4py.convert_to_bpmn(s.tree))
    add("tree_to_ts", lambda s: len(pm4py.convert_to_reachability_graph(s.tree).states))
    add("bpmn_to_net", lambda s: pm4py.convert_to_petri_net(s.bpmn)[0], none)
    add("bpmn_to_tree", lambda s: pm4py.convert_to_process_tree(s.bpmn), none)
    add("powl_to_net", lambda s: pm4py.convert_to_petri_net(s.powl)[0])
    add("dfg_to_net", lambda s: pm4py.convert_to_petri_net(*s.dfg)[0] if False else None)
    add("emd", lambda s: pm4py.compute_emd(s.lang, s.lang), none)
    add("serialize_net", lambda s: len(pm4py.serialize(*s.net)), none)
    add("serialize_tree", lambda s: len(pm4py.serialize(s.tree)), none)
    add("serialize_bpmn", lambda s: len(pm4py.serialize(s.bpmn)), none)
    add("serialize_dfg", lambda s: len(pm4py.serialize(*s.dfg)), none)
    for k, f in (("net", lambda s: s.net), ("tree", lambda s: (s.tree,)), ("bpmn", lambda s: (s.bpmn,)), ("dfg", lambda s: s.dfg), ("log", lambda s: (s.log,)), ("ocel", lambda s: (s.ocel,))):
        add("write_" + k, lambda s, k=k, f=f: writes(k, f(s)), none)
    add("abstract_net", lambda s: pm4py.llm.abstract_petri_net(*s.net), none)
    add("abstract_declare", lambda s: pm4py.llm.abstract_declare(s.declare), none)
    add("abstract_skeleton", lambda s: pm4py.llm.abstract_log_skeleton(s.skeleton), none)
    add("abstract_profile", lambda s: pm4py.llm.abstract_temporal_profile(s.profile), none)
    # object-centric
    ot = lambda s: s.c["ocel"]["ob"][0]["ty"]
    O = {"types": lambda s: pm4py.ocel_get_object_types(s.ocel), "attributes": lambda s: sorted(pm4py.ocel_get_attribute_names(s.ocel)), "flatten": lambda s: pm4py.ocel_flattening(s.ocel, ot(s)),
         "type_activities": lambda s: pm4py.ocel_object_type_activities(s.ocel), "ot_count": lambda s: pm4py.ocel_objects_ot_count(s.ocel), "temporal": lambda s: pm4py.ocel_temporal_summary(s.ocel),
         "objects": lambda s: pm4py.ocel_objects_summary(s.ocel), "interactions": lambda s: pm4py.ocel_objects_interactions_summary(s.ocel), "ocdfg": lambda s: pm4py.discover_ocdfg(s.ocel)["edges"],
         "graph": lambda s: pm4py.discover_objects_graph(s.ocel), "graph_inh": lambda s: pm4py.discover_objects_graph(s.ocel, "object_inheritance"),
         "o2o_enrichment": lambda s: pm4py.ocel_o2o_enrichment(s.ocel), "e2o_enrichment": lambda s: pm4py.ocel_e2o_lifecycle_enrichment(s.ocel), "drop_duplicates": lambda s: pm4py.ocel_drop_duplicates(s.ocel),
         "merge_duplicates": lambda s: pm4py.ocel_merge_duplicates(s.ocel), "sort_additional": lambda s: pm4py.ocel_sort_by_additional_column(s.ocel, "ocel:activity"), "timedelta": lambda s: pm4py.ocel_add_index_based_timedelta(s.ocel),
         "clusters": lambda s: len(pm4py.cluster_equivalent_ocel(s.ocel, ot(s))), "sample": lambda s: pm4py.sample_ocel_objects(s.ocel, 1), "sample_cc": lambda s: pm4py.sample_ocel_connected_components(s.ocel, 1),
         "sample_events": lambda s: pm4py.sample_events(s.ocel, 1), "networkx": lambda s: len(pm4py.convert_ocel_to_networkx(s.ocel).nodes), "features": lambda s: pm4py.extract_ocel_features(s.ocel, ot(s)),
         "f_event": lambda s: pm4py.filter_ocel_event_attribute(s.ocel, "ocel:activity", [s.c["ocel"]["ev"][0]["a"]]), "f_object": lambda s: pm4py.filter_ocel_object_attribute(s.ocel, "ocel:type", [ot(s)]),
         "f_allowed": lambda s: pm4py.filter_ocel_object_types_allowed_activities(s.ocel, {ot(s): [s.c["ocel"]["ev"][0]["a"]]}), "f_count": lambda s: pm4py.filter_ocel_object_per_type_count(s.ocel, {ot(s): 1}),
         "f_start": lambda s: pm4py.filter_ocel_start_events_per_object_type(s.ocel, ot(s)), "f_end": lambda s: pm4py.filter_ocel_end_events_per_object_type(s.ocel, ot(s)),
         "f_types": lambda s: pm4py.filter_ocel_object_types(s.ocel, [ot(s)]), "f_objects": lambda s: pm4py.filter_ocel_objects(s.ocel, [s.c["ocel"]["ob"][0]["id"]], level=2),
         "f_events": lambda s: pm4py.filter_ocel_events(s.ocel, [s.c["ocel"]["ev"][0]["id"]]), "f_cc": lambda s: pm4py.filter_ocel_cc_object(s.ocel, s.c["ocel"]["ob"][0]["id"]),
         "f_cc_otype": lambda s: pm4py.filter_ocel_cc_otype(s.ocel, ot(s)), "f_cc_length": lambda s: pm4py.filter_ocel_cc_length(s.ocel, 1, 2), "summary": lambda s: str(s.ocel),
         "abstract": lambda s: pm4py.llm.abstract_ocel(s.ocel), "abstract_ocdfg": lambda s: pm4py.llm.abstract_ocel_ocdfg(s.ocel), "abstract_features": lambda s: pm4py.llm.abstract_ocel_features(s.ocel, ot(s))}
    unordered = {"features", "merge_duplicates", "sample", "sample_cc", "sample_events", "abstract", "abstract_ocdfg", "abstract_features", "o2o_enrichment", "e2o_enrichment", "networkx", "graph_inh"}
    for k, f in O.items():
        add("ocel_" + k, f, none if k in unordered else lambda x: x)
    add("ocel_ocpn", lambda s: pm4py.discover_oc_petri_net(s.ocel), none)
    return P


def writes(kind, args):
    """Export into a scratch directory (all formats of the kind)."""
    import pm4py, tempfile, os, shutil
    d = tempfile.mkdtemp(prefix="c35_")
    try:
        p = lambda n: os.path.join(d, n)
        if kind == "net":
            pm4py.write_pnml(*args, p("a.pnml"))
        elif kind == "tree":
            pm4py.write_ptml(*args, p("a.ptml"))
        elif kind == "bpmn":
            pm4py.write_bpmn(*args, p("a.bpmn"), auto_layout=False)
        elif kind == "dfg":
            pm4py.write_dfg(*args, p("a.dfg"))
        elif kind == "log":
            pm4py.write_xes(*args, p("a.xes"))
        else:
            pm4py.write_ocel_csv(*args, p("a.csv"), p("b.csv"))
            pm4py.write_ocel_json(*args, p("a.jsonocel"))
            pm4py.write_ocel_xml(*args, p("a.xmlocel"))
            pm4py.write_ocel_sqlite(*args, p("a.sqlite"))
            pm4py.write.write_ocel2_json(*args, p("b.jsonocel"))
            pm4py.write.write_ocel2_xml(*args, p("b.xmlocel"))
            pm4py.write.write_ocel2_sqlite(*args, p("b.sqlite"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


POWLS = ["PO=(nodes={ A, B, X ( C, D ) }, order={ A-->B })", "X ( A, * ( B, C ) )", "PO=(nodes={ A, B, C }, order={ A-->C, B-->C })"]


def cases(rng, tier):
    names = list(range(NCALLS))      # indices into the sorted table of calls
    n = 260 if tier == "quick" else 3000
    k = 8
    pool = []
    for j in range(n):
        while len(pool) < k:
            nxt = list(names)
            rng.shuffle(nxt)
            pool += nxt
        h, pool = pool[:k], pool[k:]
        lab = ["a", "b", "c", "d"][:rng.randint(2, 4)]
        l = gens.rlog(rng, lab, rng.randint(2, 6), rng.choice([3, 5]), minlen=1, ties=rng.choice([0, .3]), maxdt=rng.choice([5, 3600]))
        if rng.random() < .4:
            for c in l:
                for e in c["ev"]:
                    e["s"] = e["t"] - rng.choice([0, 2])
        t = gens.rtree(rng, lab, rng.randint(2, 5), ops=["seq", "xor", "par", "loop"])
        O = ocels.rocel(rng, nev=6, nob=5, quals=rng.random() < .4, unrelated=0)
        used = {x["o"] for x in O["rel"]}              # every object takes part in an event
        O["ob"] = [o for o in O["ob"] if o["id"] in used]
        O["o2o"] = [x for x in O["o2o"] if x["o"] in used and x["p"] in used]
        O["oc"] = [x for x in O["oc"] if x["o"] in used]
        yield {"h": h, "log": l, "order": gens.interleaving(rng, l), "form": rng.choice(["df", "log"]), "attrs": rng.random() < .4, "tree": t, "net": gens.net_of_tree(t), "ocel": O,
               "powl": rng.choice(POWLS), "ab": [rng.choice(lab), rng.choice(lab)]}


def difference(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = json.dumps(a[k], default=str), json.dumps(b[k], default=str)
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for q in a[k]:
                    if a[k][q] != b[k].get(q):
                        x, y, k = json.dumps(a[k][q], default=str), json.dumps(b[k].get(q), default=str), "%s.%s" % (k, q)
                        break
            return "%s: %s => %s" % (k, x[:150], y[:150])
    return ""


def once(f, s):
    import random
    import numpy as np
    random.seed(7)
    np.random.seed(7)
    try:
        return f(s), None
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:120])


def run(c):
    P = calls()
    if len(P) != NCALLS:
        raise core.MachineryError("NCALLS should be %d" % len(P))
    s = Inputs(c)
    before = s.snapshot()
    digest = lambda snap: {k: sha(v) for k, v in snap.items()}
    out, steps, alt = [], [], []
    first = digest(before)
    for i in c["h"]:
        name = sorted(P)[i]
        f, view = P[name]
        o, x = once(f, s)
        o2, x2 = once(f, Inputs(c))
        v = lambda o, x: "raised " + x if x else "" if view is None else sha(content(view(o)))
        a, b = v(o, x), v(o2, x2)
        after = s.snapshot()
        out.append({"op": "call", "f": name, "first": first, "after": digest(after), "result": a, "fresh": b, "raised": x2 or "", "diff": difference(before, after)})
        if digest(after) != first:          # go on with fresh inputs: each call answers for its own effects
            s = Inputs(c)
            before = s.snapshot()
            first = digest(before)
    return out


def signature(case, ev, clause):
    return ev.get("f", "") + "/" + case["form"]


def nontrivial(c, evs):
    return sum(1 for e in evs if e["op"] == "call" and not e["result"].startswith("raised")) >= 4
