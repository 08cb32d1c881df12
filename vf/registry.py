"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, technique=None,
         level_note=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], technique=technique, level_note=level_note,
                  level=level))


prop("C01", "Petri net firing rule",
     "A transition is enabled in a marking exactly when every ordinary input place holds at least the arc weight "
     "(reset arcs never block, inhibitor arcs block as soon as their place is marked); executing it removes the input "
     "weights (a reset empties its place), adds the output weights, leaves the given marking untouched and returns a "
     "marking without zero entries. Executing a disabled transition returns nothing, the set of enabled transitions is "
     "exactly the enabled ones, and the unchecked/weak variants produce the same token arithmetic.",
     ["inputs", "histories"], "every net (weighted, reset, inhibitor arcs), every marking, every firing sequence",
     "The tests fire a handful of transitions on one or two sample nets; the rule must hold for every arc weight, "
     "marking and firing history, and every other algorithm in the library builds on it.",
     ["pm4py/objects/petri_net/semantics.py", "pm4py/objects/petri_net/inhibitor_reset/semantics.py",
      "pm4py/objects/petri_net/stochastic/semantics.py", "pm4py/objects/petri_net/obj.py"],
     [("is_enabled / execute / weak_execute / enabled_transitions", "pm4py/objects/petri_net/semantics.py"),
      ("reset and inhibitor semantics", "pm4py/objects/petri_net/inhibitor_reset/semantics.py"),
      ("Marking equality, hashing and inclusion", "pm4py/objects/petri_net/obj.py")],
     ["return values of is_enabled/execute/weak_execute/enabled_transitions/fire"],
     [("marking", "tokens per place", "Marking (Counter) in pm4py/objects/petri_net/obj.py")])

prop("C02", "Reachability graph is the exact state space",
     "For a bounded accepting Petri net the reachability graph has exactly one state per reachable marking and exactly "
     "one edge per (reachable marking, enabled transition), leading to the marking reached by firing it.",
     ["inputs"], "every bounded net and initial marking",
     "The tests build one reachability graph and count its states; completeness is a statement over all reachable "
     "markings of all nets.",
     ["pm4py/objects/petri_net/utils/reachability_graph.py", "pm4py/convert.py"],
     [("breadth-first construction", "pm4py/objects/petri_net/utils/reachability_graph.py")],
     ["pm4py.convert_to_reachability_graph"],
     [("reachable markings", "states of the transition system", "construct_reachability_graph")])

prop("C03", "Soundness and workflow-net verdicts",
     "check_is_workflow_net answers yes exactly for nets with one source place, one sink place and every node on a "
     "path from source to sink; check_soundness answers sound exactly for workflow nets whose final marking can be "
     "reached from every reachable marking, is the only reachable marking with a token in the sink, and in which every "
     "transition can fire.",
     ["inputs"], "every ordinary workflow net with bounded or unbounded behaviour, and every non-workflow net",
     "The tests ask for the verdict on a few textbook nets; the verdict must agree with the behavioural definition "
     "on every net.",
     ["pm4py/algo/analysis/woflan/algorithm.py", "pm4py/algo/analysis/workflow_net/variants/petri_net.py",
      "pm4py/analysis.py", "pm4py/objects/petri_net/utils/check_soundness.py"],
     [("WOFLAN diagnosis", "pm4py/algo/analysis/woflan/algorithm.py"),
      ("workflow net test", "pm4py/algo/analysis/workflow_net/variants/petri_net.py")],
     ["pm4py.check_soundness", "pm4py.check_is_workflow_net"])

prop("C04", "Net reductions preserve behaviour",
     "Removing invisible transitions and removing implicit places from an accepting Petri net never changes the set "
     "of visible activity sequences leading from the initial to the final marking; neither does the reduction of "
     "workflow nets with reset and inhibitor arcs or any of its rules.",
     ["inputs"], "every bounded sound workflow net with silent transitions; every bounded workflow net with unit, reset and inhibitor arcs",
     "The tests only check that the reduced net is smaller; language preservation quantifies over all runs.",
     ["pm4py/objects/petri_net/utils/reduction.py", "pm4py/objects/petri_net/utils/murata.py", "pm4py/analysis.py"],
     [("apply_simple_reduction", "pm4py/objects/petri_net/utils/reduction.py"),
      ("Murata/Berthelot implicit places", "pm4py/objects/petri_net/utils/murata.py")],
     ["pm4py.reduce_petri_net_invisibles", "pm4py.reduce_petri_net_implicit_places", "reduction.apply_reset_inhibitor_net_reduction"])

prop("C05", "Alignments are real and optimal",
     "Every alignment of a trace against an accepting Petri net projects to the trace on the log side and to a firing "
     "sequence from the initial to the final marking on the model side, its reported cost is the sum of the costs of "
     "its moves, and no alignment with a lower cost exists. This holds for each exact search variant "
     "(state-equation A*, Dijkstra without heuristics and Dijkstra with less memory), also with custom move costs; the alignment generators "
     "yield only optimal alignments, each once, and the discounted search a valid one with its discounted cost.",
     ["inputs", "configurations"], "every bounded net with reachable final marking, every trace, every exact variant",
     "Tests compare the cost of a few traces of one log; optimality is a minimum over all runs of the model.",
     ["pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py",
      "pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py",
      "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py",
      "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py",
      "pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py",
      "pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/objects/petri_net/utils/align_utils.py"],
     [("A* over the synchronous product", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py"),
      ("synchronous product construction", "pm4py/objects/petri_net/utils/synchronous_product.py")],
     ["pm4py.conformance_diagnostics_alignments", "alignments.petri_net.algorithm.apply_trace"])

prop("C06", "Alignment-based fitness",
     "The fitness of a trace is 1 minus its optimal alignment cost divided by the cost of the worst alignment (all "
     "log moves plus the cheapest run of the model), it is 1 exactly when the trace is a run of the model, and the "
     "log-level percentage of fitting traces, average fitness and log fitness are the aggregates over all cases of "
     "the log, repeated variants counted once per case. check_is_fitting answers yes exactly for runs of the model.",
     ["inputs"], "every bounded net with reachable final marking and every log",
     "Tests assert that numbers are returned for one log; the aggregates must be right for every multiset of traces.",
     ["pm4py/conformance.py", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py",
      "pm4py/algo/conformance/alignments/petri_net/algorithm.py"],
     [("worst-cost computation and aggregation", "pm4py/algo/conformance/alignments/petri_net/algorithm.py"),
      ("evaluate", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py")],
     ["pm4py.conformance_diagnostics_alignments", "pm4py.fitness_alignments", "pm4py.check_is_fitting"])

prop("C07", "Token-based replay accounting",
     "For every replayed trace the token counts (produced, consumed, missing, remaining) and the reached marking are those of "
     "walking through the activated transitions, which explain the known events of the trace; produced + missing = consumed + remaining, "
     "the trace fitness is 0.5(1-missing/consumed)+0.5(1-remaining/produced), and a trace is reported fitting exactly when nothing is "
     "missing or remaining (and, on request, it has no unknown activity), whatever the options and the form of the output. A trace reported fitting is a run of the net, and on nets with unique labels "
     "and no silent transitions exactly the runs fit; log fitness aggregates the cases.",
     ["inputs"], "every net, every log",
     "Tests replay one log against discovered nets and look at percentages; the accounting identity quantifies over "
     "all traces and nets.",
     ["pm4py/algo/conformance/tokenreplay/variants/token_replay.py",
      "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py"],
     [("apply_trace", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py")],
     ["pm4py.conformance_diagnostics_token_based_replay", "pm4py.fitness_token_based_replay"])

prop("C08", "Footprints",
     "The footprints of a log hold exactly its directly-follows pairs, split into one-directional (sequence) and two-directional "
     "(parallel) ones, its activities, start and end activities and minimum trace length; those of a process tree or bounded net describe "
     "the language of the tree / the firing sequences of the net in the same way. Footprint conformance reports as deviating exactly the log's "
     "pairs and start/end/mandatory activities the model lacks, with fitness and precision computed from these counts.",
     ["inputs"], "every log, every process tree, every bounded net",
     "Tests compute footprints once and check nothing but their presence; equality with the language-theoretic definition "
     "is over all logs and models.",
     ["pm4py/algo/discovery/footprints", "pm4py/algo/conformance/footprints"],
     [("log, tree and net footprints", "pm4py/algo/discovery/footprints"),
      ("comparison and fitness", "pm4py/algo/conformance/footprints")],
     ["pm4py.discover_footprints", "pm4py.conformance_diagnostics_footprints", "pm4py.fitness_footprints"])

prop("C09", "Inductive miner guarantees",
     "Without noise filtering the inductive miner returns a process tree (and a Petri net / BPMN) that can replay every "
     "trace of the log, uses no activity outside the log, and whose Petri net is a sound workflow net. A process made of "
     "sequence, choice, parallel and loop blocks over distinct activities is rediscovered (same language) from a log "
     "that covers its behaviour. Mining a directly-follows graph gives a tree that can replay every directly-follows pair, start "
     "and end activity of the graph and has no other activities.",
     ["inputs"], "every event log including empty traces, repeats and parallelism",
     "Tests mine a few logs; perfect fitness is promised for every log.",
     ["pm4py/algo/discovery/inductive", "pm4py/discovery.py"],
     [("cuts, fall-throughs and base cases", "pm4py/algo/discovery/inductive")],
     ["pm4py.discover_process_tree_inductive", "pm4py.discover_petri_net_inductive"])

prop("C10", "Conversions between models preserve the language",
     "Converting a process tree to a Petri net, BPMN diagram or POWL model, a safe sound workflow net to BPMN or (when block-structured) "
     "back to a tree, BPMN without inclusive gateways to a Petri net, a POWL model to a Petri net or its simplified form, and a directly-follows "
     "graph to a Petri net yields a model with exactly the same visible traces; nets obtained from trees and POWL models are "
     "sound workflow nets, and the orders of POWL models stay strict partial orders.",
     ["programs"], "every process tree (sequence, choice, parallel, loop, silent) and every POWL model",
     "Tests convert one model and check nothing about behaviour; language equality is over all traces of all models.",
     ["pm4py/objects/conversion/process_tree", "pm4py/objects/conversion/wf_net", "pm4py/objects/conversion/bpmn",
      "pm4py/objects/conversion/powl", "pm4py/convert.py"],
     [("tree to net", "pm4py/objects/conversion/process_tree/variants/to_petri_net.py"),
      ("net to tree", "pm4py/objects/conversion/wf_net/variants/to_process_tree.py"),
      ("BPMN to net", "pm4py/objects/conversion/bpmn/variants/to_petri_net.py")],
     ["pm4py.convert_to_petri_net", "pm4py.convert_to_process_tree", "pm4py.convert_to_bpmn"])

prop("C11", "Process tree text, PTML and simplification",
     "Printing a process tree with an operator (labels without apostrophes) and parsing the text, writing a tree as PTML and reading it (up to the order of "
     "commutative children), and printing and parsing a POWL model with textually distinct siblings give back an equal model; folding, reducing silent leaves, sorting and binary "
     "normalisation never change the set of visible traces, and structural equality of trees answers as defined.",
     ["programs"], "every process tree",
     "Tests round-trip one tree; equality quantifies over all tree shapes and labels.",
     ["pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/process_tree/obj.py",
      "pm4py/objects/process_tree/exporter", "pm4py/objects/process_tree/importer"],
     [("parse / fold / reduce_tau_leafs", "pm4py/objects/process_tree/utils/generic.py")],
     ["pm4py.parse_process_tree", "pm4py.write_ptml", "pm4py.read_ptml"])

prop("C12", "Play-out stays inside the model, extensive play-out covers it",
     "Every trace produced by playing out a Petri net, process tree or directly-follows graph is a complete run of the model; the "
     "extensive play-out of a net or tree returns exactly the distinct visible traces of its complete runs within the requested length bounds, "
     "that of a directly-follows graph every path within the requested occurrence bound; the model is left unchanged.",
     ["inputs"], "every bounded net and every process tree, every random seed",
     "Tests play out one model and count traces; membership and completeness are over all runs.",
     ["pm4py/algo/simulation/playout", "pm4py/sim.py"],
     [("extensive and basic playout", "pm4py/algo/simulation/playout")],
     ["pm4py.play_out"])

prop("C13", "Model files round-trip",
     "Writing a Petri net as PNML, a BPMN diagram or a directly-follows graph to a file and reading it back yields the "
     "same model: same places, transitions, labels, silent transitions, arcs with weights, initial and final marking; "
     "same nodes, types and flows; same frequencies and start/end activities.",
     ["inputs"], "every net with arc weights and multi-token markings, every DFG, every BPMN diagram",
     "Tests round-trip one file; the guarantee is for every model.",
     ["pm4py/objects/petri_net/exporter/variants/pnml.py", "pm4py/objects/petri_net/importer/variants/pnml.py",
      "pm4py/objects/dfg/exporter/variants/classic.py", "pm4py/objects/bpmn/exporter/variants/etree.py"],
     [("PNML exporter and importer", "pm4py/objects/petri_net"), ("DFG files", "pm4py/objects/dfg")],
     ["pm4py.write_pnml/read_pnml", "pm4py.write_dfg/read_dfg", "pm4py.write_bpmn/read_bpmn"])

prop("C14", "Directly- and eventually-follows graphs are exact",
     "The discovered directly-follows graph (also with a window, once per case, as triples or annotated with case attributes), start and "
     "end activities, activity counts and eventually-follows graph count exactly the corresponding occurrences over all cases, whether the log is an event log, a "
     "dataframe or an event stream, and whatever the order in which the rows of different cases are interleaved.",
     ["inputs", "schedules"], "every log, every interleaving of the rows of different cases",
     "Tests check the size of the graph of one log; counts must be exact for all logs and interleavings.",
     ["pm4py/discovery.py", "pm4py/algo/discovery/dfg", "pm4py/statistics/eventually_follows", "pm4py/statistics/start_activities",
      "pm4py/statistics/end_activities"],
     [("dfg for logs and dataframes", "pm4py/algo/discovery/dfg")],
     ["pm4py.discover_dfg", "pm4py.discover_eventually_follows_graph", "pm4py.get_start_activities", "pm4py.get_end_activities"])

prop("C15", "Performance statistics are exact",
     "Case durations, case arrival and dispersion averages, cycle time, case and interval overlaps, service times, concurrent-activity counts, "
     "times to successors and from predecessors, path durations per variant and the performance graph (mean, median, min, max, sum, standard "
     "deviation, raw values; costs) are exactly those given by the timestamps. This holds for event logs and dataframes, for plain and interval "
     "events and, where offered, in business hours. The performance spectrum holds one point list for each occurrence of the activity list "
     "(each maximal partial occurrence in the disconnected variants), and a sample of them when there are more than asked for.",
     ["inputs"], "every log with arbitrary timestamps, ties included",
     "Tests only check that a number is returned.",
     ["pm4py/stats.py", "pm4py/statistics", "pm4py/algo/discovery/dfg/variants/performance.py", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py",
      "pm4py/algo/discovery/performance_spectrum"],
     [("duration statistics", "pm4py/statistics"), ("performance spectrum", "pm4py/algo/discovery/performance_spectrum")],
     ["pm4py.get_all_case_durations", "pm4py.discover_performance_dfg", "pm4py.algo.discovery.performance_spectrum.algorithm.apply"])

prop("C16", "Variants and log statistics are exact",
     "Variants with their frequencies, cases and durations, the stochastic language, attribute values (per event, once per case, per case), attribute "
     "lists, rework per activity and per case, activity positions, minimum self-distances with witnesses and calendar distributions are exactly those "
     "of the log. The cases of the variants partition the log, and event logs and dataframes agree whatever the row order.",
     ["inputs"], "every log, both representations",
     "Tests only look at sizes for one log.",
     ["pm4py/stats.py", "pm4py/statistics/variants", "pm4py/statistics/traces", "pm4py/statistics/rework", "pm4py/statistics/attributes",
      "pm4py/algo/discovery/minimum_self_distance"],
     [("variants", "pm4py/statistics/variants"), ("rework", "pm4py/statistics/rework")],
     ["pm4py.get_variants", "pm4py.get_rework_cases_per_activity"])

prop("C17", "Case filters keep exactly the matching cases",
     "Every case-level filter (start/end activities, event and case attribute values, numeric values, variants and their frequency, directly/eventually follows with and without time bounds, time range, "
     "size, duration, rework, path duration, four eyes, different persons, trace segments, prefixes/suffixes) keeps exactly the cases satisfying its documented condition, complete and unchanged; "
     "its negation keeps exactly the other cases, and event logs and dataframes (with rows of the cases in any interleaving) give the same cases.",
     ["inputs", "configurations"], "every log and every filter argument",
     "Tests call each filter once and check lengths; the condition must hold for all logs and arguments.",
     ["pm4py/filtering.py", "pm4py/algo/filtering/log", "pm4py/algo/filtering/pandas"],
     [("log filters", "pm4py/algo/filtering/log"), ("dataframe filters", "pm4py/algo/filtering/pandas")],
     ["pm4py.filter_*"])

prop("C18", "Event filters keep exactly the matching events",
     "Every filter that removes events or cuts cases (attribute values, numeric range, time range, relative occurrence, most frequent activities, prefixes, suffixes, between, activity split, "
     "grouping of consecutive equal activities or timestamps) keeps exactly the documented events of every case, unchanged and in their original order, for event logs and dataframes alike.",
     ["inputs", "configurations"], "every log and every filter argument",
     "Tests call each filter once.",
     ["pm4py/filtering.py", "pm4py/algo/filtering/log", "pm4py/algo/filtering/pandas"],
     [("log filters", "pm4py/algo/filtering/log"), ("dataframe filters", "pm4py/algo/filtering/pandas")],
     ["pm4py.filter_*"])

prop("C19", "Log conversions and XES files lose nothing",
     "Any chain of conversions between event log, event stream and dataframe keeps every event with its attributes, the attributes of its case "
     "and the order of events in a case (log-level metadata between log and stream); writing a log with either XES exporter and reading it with any "
     "importer returns the same cases and typed attributes (nested attributes and lists with the iterparse importers; restricted or sorted as the importer's options ask), and likewise for a dataframe with missing values. "
     "format_dataframe/rebase keep exactly the complete rows, sorted by case, time and position with correct index columns; the networkx conversion holds exactly the "
     "events, cases, attribute nodes and edges of the log, and turned back into a log gives the same cases.",
     ["inputs", "histories"], "every log with missing attributes, ties and all attribute types; every conversion chain; every exporter/importer pair",
     "Tests convert or round-trip one sample log and compare sizes; losslessness is for all logs, values, file sizes and chains.",
     ["pm4py/objects/conversion/log", "pm4py/objects/log/exporter/xes", "pm4py/objects/log/importer/xes", "pm4py/convert.py", "pm4py/utils.py", "pm4py/util/nx_utils.py"],
     [("conversions", "pm4py/objects/conversion/log"), ("XES exporters and importers", "pm4py/objects/log"), ("format_dataframe, rebase, parse_event_log_string", "pm4py/utils.py")],
     ["pm4py.convert_to_event_log/_event_stream/_dataframe", "pm4py.write_xes", "pm4py.read_xes", "pm4py.format_dataframe", "pm4py.convert_log_to_networkx"])

prop("C20", "Streaming discovery equals batch discovery",
     "After any prefix of an event stream, in any interleaving of cases, the streaming directly-follows discovery reports "
     "exactly the directly-follows graph, activities, start and end activities that batch discovery reports for the events seen so far.",
     ["schedules", "histories"], "every interleaving of cases and every prefix",
     "Tests stream one log in order; the guarantee is for all interleavings and prefixes.",
     ["pm4py/streaming/algo/discovery/dfg", "pm4py/streaming/stream/live_event_stream.py"],
     [("frequency DFG", "pm4py/streaming/algo/discovery/dfg/variants/frequency.py")],
     ["streaming_dfg.get()"],
     [("case_dict", "last activity per case", "frequency.py"), ("dfg", "edge counts", "frequency.py")])

prop("C21", "Streaming conformance follows its per-case rule",
     "Streaming conformance checking (token replay, footprints, temporal profile) judges every case independently of how "
     "its events are interleaved with other cases' events, and reports exactly the deviations the corresponding per-case rule defines.",
     ["schedules", "histories"], "every interleaving of cases, every prefix",
     "Tests stream one log in order and read one number.",
     ["pm4py/streaming/algo/conformance"],
     [("tbr, footprints, temporal profile", "pm4py/streaming/algo/conformance")],
     ["get() and terminate() of the streaming conformance objects"])

prop("C22", "Live event stream delivers in order, exactly once",
     "A live event (or trace) stream that is started delivers every event appended before it is stopped to every registered algorithm exactly once, one at a time "
     "and in append order, and stopping returns after the last delivery; querying an algorithm meanwhile gives its result after some prefix of these events. "
     "The flattening of object-centric events delivers one event per object of each registered type.",
     ["schedules"], "every interleaving of producers, start and stop",
     "Tests append one log to one consumer.",
     ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/conversion"],
     [("queue and worker thread", "pm4py/streaming/stream/live_event_stream.py")],
     ["_process of the registered algorithm"])

prop("C23", "Object-centric filters select exactly and keep the log consistent",
     "Every filter of an object-centric log (attributes, identifiers, types, allowed activities per type, counts, start/end events, time, connected components) keeps exactly the documented events, or objects, in their order: filtering events keeps the objects "
     "still related to a kept event, filtering objects keeps the events still related to a kept object. Kept relations, links, object changes and attributes are unaltered, none refers to a dropped event or object, and the given log is untouched.",
     ["inputs", "configurations"], "every object-centric log and every filter argument",
     "Tests check one sample log.",
     ["pm4py/filtering.py", "pm4py/algo/filtering/ocel", "pm4py/objects/ocel/util/filtering_utils.py"],
     [("propagation of filters", "pm4py/objects/ocel/util/filtering_utils.py")],
     ["pm4py.filter_ocel_*"])

prop("C24", "Object-centric flattening, graphs and summaries are exact",
     "Flattening an object-centric log on a type yields one case per related object of that type with exactly its events in time order. The object-centric directly-follows graph, the object graphs (interaction, descendants, inheritance, cobirth, codeath), "
     "the graph enrichments and the object, event and interleaving summaries are what their definitions give on the relations of the log, and the object-centric Petri net fits the flattened log of each type.",
     ["inputs"], "every object-centric log",
     "Tests check one sample log.",
     ["pm4py/ocel.py", "pm4py/objects/ocel/util", "pm4py/algo/discovery/ocel", "pm4py/algo/transformation/ocel"],
     [("flattening", "pm4py/objects/ocel/util/flattening.py"), ("OC-DFG", "pm4py/algo/discovery/ocel/ocdfg")],
     ["pm4py.ocel_flattening", "pm4py.discover_ocdfg", "pm4py.discover_objects_graph"])

prop("C25", "Object-centric logs round-trip through files",
     "An object-centric log whose events and objects are all related, written by any of the OCEL writers (CSV, JSON, XML, SQLite; OCEL 1 and 2) and read back, or turned into a graph and back, has the same events, objects, relations and attribute values, at the same instants, with the events and relations in time order. "
     "Qualifiers come back unless the format is CSV, OCEL 1 XML or the OCEL 1 JSON of a plain log; object-object relations and object changes come back from the OCEL 2 formats.",
     ["inputs", "configurations"], "every object-centric log, every format",
     "Tests round-trip one log and check nothing but the absence of an error.",
     ["pm4py/objects/ocel/exporter", "pm4py/objects/ocel/importer", "pm4py/objects/conversion/ocel", "pm4py/util/nx_utils.py"],
     [("exporters and importers", "pm4py/objects/ocel")],
     ["pm4py.write_ocel*", "pm4py.read_ocel*"])

prop("C26", "Declare discovery and conformance checking are exact",
     "Declare discovery reports for every template, and every activity or pair of considered activities, exactly the number of cases it applies to (support) and holds in (confidence), and returns exactly the constraints above the given or automatic thresholds. "
     "Conformance checking reports for every case exactly the constraints of the model it violates, each once, with the counts and the fitness that follow; both follow one definition of the templates (alternate and chain: strict alternation of the two activities).",
     ["inputs"], "every log, every template",
     "Tests check sizes for one log.",
     ["pm4py/algo/discovery/declare", "pm4py/algo/conformance/declare"],
     [("templates", "pm4py/algo/discovery/declare/variants/classic.py"), ("checks", "pm4py/algo/conformance/declare/variants/classic.py")],
     ["pm4py.discover_declare", "pm4py.conformance_declare"])

prop("C27", "Log skeleton discovery and checking",
     "The discovered log skeleton holds exactly the pairs (a,b) for which at least the share 1-noise of the occurrences of a satisfies the relation (equivalence, always-after, always-before, "
     "never-together, directly-follows) and, per activity, the most frequent numbers of occurrences covering that share of the cases. Checking reports for each case exactly the pairs violated by "
     "some occurrence and the disallowed frequencies, with matching totals and fitness; with zero noise every case of the discovery log conforms.",
     ["inputs"], "every log, every noise threshold and every subset of the considered constraints",
     "Tests check one log.",
     ["pm4py/algo/discovery/log_skeleton", "pm4py/algo/conformance/log_skeleton"],
     [("trace_skel", "pm4py/algo/discovery/log_skeleton/trace_skel.py")],
     ["pm4py.discover_log_skeleton", "pm4py.conformance_log_skeleton"])

prop("C28", "Temporal profile discovery and checking",
     "The temporal profile holds for each pair of activities of events that follow each other (the first completing no later than the second starts) the mean and sample standard deviation of the elapsed "
     "times, in business hours if requested; checking reports per case, in the order of the cases, exactly the event pairs whose elapsed time is farther than zeta deviations from the mean, "
     "and the diagnostics table lists the same.",
     ["inputs"], "every log, profile and zeta",
     "Tests check one log.",
     ["pm4py/algo/discovery/temporal_profile", "pm4py/algo/conformance/temporal_profile"],
     [("profile", "pm4py/algo/discovery/temporal_profile")],
     ["pm4py.discover_temporal_profile", "pm4py.conformance_temporal_profile"])

prop("C29", "Alpha miner follows its definition",
     "The alpha miner returns the workflow net whose places are the maximal pairs (A,B) with every a in A causal to every b in B and the activities within A and within B pairwise unrelated, plus source and "
     "sink over the start and end activities, from a log or from a directly-follows graph; the alpha+ miner uses the relations with length-two loops, removes length-one loops first and attaches each "
     "to the place between its predecessors and successors, omitting only redundant artificial start and end transitions.",
     ["inputs"], "every log and every directly-follows graph",
     "Tests mine one log.",
     ["pm4py/algo/discovery/alpha"],
     [("classic alpha", "pm4py/algo/discovery/alpha/variants/classic.py"), ("alpha+", "pm4py/algo/discovery/alpha/variants/plus.py")],
     ["pm4py.discover_petri_net_alpha", "pm4py.discover_petri_net_alpha_plus"])

prop("C30", "Prefix tree and transition system describe the log",
     "The prefix tree of a log has one node per prefix of a case, with its depth, and exactly the nodes that are whole cases are final. The discovered transition system has exactly the states and "
     "transitions given by the window abstraction (sequence, set or multiset; forward or backward) along every case, each state once, with matching incoming and outgoing transitions and, on request, the events behind each of them.",
     ["inputs"], "every log, every window, direction and view",
     "Tests count states for one log.",
     ["pm4py/algo/discovery/transition_system", "pm4py/algo/transformation/log_to_trie"],
     [("state abstraction", "pm4py/algo/discovery/transition_system/variants/view_based.py"), ("prefix tree", "pm4py/algo/transformation/log_to_trie/algorithm.py")],
     ["pm4py.discover_transition_system", "pm4py.discover_prefix_tree"])

prop("C31", "Precision follows the escaping-edges definition",
     "Precision equals one minus the ratio of escaping to allowed activities, summed over every proper prefix (with its frequency, and the empty prefix once per case) that the model can replay: allowed are the "
     "activities eventually enabled through silent transitions from the markings in which the prefix ends, escaping those that never follow it in the log. This holds for alignment-based precision on every "
     "net whose final marking is reachable and for token-based precision on nets without silent transitions and with distinct labels, equally for event logs and dataframes.",
     ["inputs"], "every log and bounded net",
     "Tests check a number for one log.",
     ["pm4py/algo/evaluation/precision", "pm4py/objects/petri_net/utils/align_utils.py"],
     [("ETConformance", "pm4py/algo/evaluation/precision/variants"), ("eventually enabled transitions", "pm4py/objects/petri_net/utils/align_utils.py")],
     ["pm4py.precision_token_based_replay", "pm4py.precision_alignments"])

prop("C32", "BPMN diagrams execute by the token game",
     "In a BPMN diagram a node can execute exactly when it holds the tokens it needs (one, or one per incoming flow for a synchronising parallel gateway), enabled_nodes lists exactly these nodes until an end event of the process is reached, and executing a node gives exactly "
     "the possible successor markings: it consumes the needed tokens and passes tokens to one outgoing flow (exclusive), all of them (parallel) or any non-empty set (inclusive splits), with sub-processes entered and left, error and message boundary events and terminate ends cancelling what they must. "
     "The given marking is not changed, and the task sequences of complete executions of block-structured diagrams are executions of the corresponding process tree.",
     ["histories"], "every BPMN diagram of these elements (gateways with a direction) and every execution history",
     "No test executes a BPMN diagram.",
     ["pm4py/objects/bpmn/semantics.py", "pm4py/objects/bpmn/util/bpmn_utils.py"],
     [("spec/BpmnTok.tla (Flow, Exec, TEnabled) against enabled_nodes / execute / try_to_execute at every visited marking", "pm4py/objects/bpmn/semantics.py")],
     ["semantics.enabled_nodes", "semantics.execute", "bpmn_utils.get_initial_marking"])

prop("C33", "Organizational mining is exact",
     "For event logs and dataframes alike, the handover (any beta), subcontracting (any distance), working-together and activity-similarity networks and the network analysis hold exactly the connections and values (raw or normalised) defined by the log, and the local diagnostics of groups, roles or clusters (focus, stake, coverage, member contribution) are exact ratios of event counts. "
     "Organizational roles are the result of merging the two most similar activity groups as long as their similarity exceeds the threshold, and resource profiles (distinct activities, frequencies, completions, durations, workload, multitasking, interaction, social position) count exactly what lies in the half-open interval.",
     ["inputs"], "every log with resources (and groups), every parameter value",
     "Tests call the functions on one log and do not look at the values.",
     ["pm4py/algo/organizational_mining", "pm4py/org.py", "pm4py/statistics/traces/generic/pandas/case_statistics.py"],
     [("sna variants (event log / pandas twins)", "pm4py/algo/organizational_mining/sna/variants"), ("roles", "pm4py/algo/organizational_mining/roles/common/algorithm.py"), ("local diagnostics", "pm4py/algo/organizational_mining/local_diagnostics/algorithm.py"),
      ("resource profiles", "pm4py/algo/organizational_mining/resource_profiles/variants"), ("network analysis", "pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py")],
     ["pm4py.discover_handover_of_work_network", "pm4py.discover_subcontracting_network", "pm4py.discover_working_together_network", "pm4py.discover_activity_based_resource_similarity", "pm4py.discover_network_analysis", "pm4py.discover_organizational_roles", "resource_profiles.algorithm", "local_diagnostics.algorithm"])

prop("C34", "Sampling, splitting, sorting and formatting never invent or alter data",
     "Sampling cases or events (also of object-centric logs), train/test splits, splits by variant, partitions, prefixes, filters by function and sorts return parts or stable "
     "rearrangements of the log: of the requested size, cases complete and in order, every event with its attributes. "
     "Attribute projection, classifiers, parsing from strings, serialization, dataframe formatting, rebasing and artificial start/end events change only what they say they change.",
     ["inputs", "configurations"], "every log, representation, size, share and random seed",
     "Tests check sizes for one log.",
     ["pm4py/utils.py", "pm4py/ml.py", "pm4py/hof.py", "pm4py/objects/log/util", "pm4py/objects/ocel/util/sampling.py", "pm4py/ocel.py"],
     [("sampling", "pm4py/objects/log/util/sampling.py"), ("train/test split", "pm4py/objects/log/util/split_train_test.py"), ("formatting", "pm4py/utils.py")],
     ["pm4py.sample_cases", "pm4py.split_train_test", "pm4py.format_dataframe", "pm4py.sample_ocel_connected_components"])

prop("C35", "Analyses leave their inputs unchanged and do not depend on earlier calls",
     "In every history of calls of discovery, conformance, filtering, statistics, conversion, organisational, machine-learning, export and object-centric functions on the same objects, no call changes the content of an object it is given "
     "(log, dataframe columns and types, event attributes, net, tree, BPMN, POWL, OCEL tables, discovered artefacts), every call on well-formed input answers, and its answer is the one it gives on freshly built inputs.",
     ["histories", "inputs"], "every history of public calls on shared inputs",
     "No test compares the inputs before and after a call, and every test starts from freshly read inputs; the number of histories is unbounded.",
     ["pm4py/discovery.py", "pm4py/conformance.py", "pm4py/filtering.py", "pm4py/stats.py", "pm4py/convert.py", "pm4py/ocel.py", "pm4py/write.py", "pm4py/ml.py", "pm4py/analysis.py"],
     [("log conversion", "pm4py/objects/conversion/log/variants"), ("directly-follows computation on dataframes", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py"), ("copying of OCELs", "pm4py/objects/ocel/obj.py")],
     ["content of all shared objects after every call", "result of every call against the result on fresh inputs"])

prop("C36", "Streaming readers yield exactly the source's content",
     "Reading a XES file event by event or trace by trace, a CSV file row by row, or a dataframe (rows in any order) trace by trace yields exactly the events, attributes "
     "and traces of the source, in its order (dataframes: in time order per case), restricted to those the acceptance condition admits, also after a reset.",
     ["inputs", "configurations"], "every log, attribute type and reading mode",
     "Tests read one well-formed file from start to end.",
     ["pm4py/streaming/importer", "pm4py/streaming/conversion/from_pandas.py"],
     [("XES event stream", "pm4py/streaming/importer/xes/variants/xes_event_stream.py"), ("XES trace stream", "pm4py/streaming/importer/xes/variants/xes_trace_stream.py"),
      ("CSV stream", "pm4py/streaming/importer/csv/variants/csv_event_stream.py"), ("dataframe as iterable", "pm4py/streaming/conversion/from_pandas.py")],
     ["events and traces handed out by the readers"])

prop("C37", "Extracted features, targets, rates and time series are what the log says",
     "For every log the feature table has one row per case and exactly the columns its parameters select (one-hot values and successions, numeric attributes and, when enabled, durations, path times, work in progress, resource workload, positions, concurrency), each with the value defined by the events of that case; automatic selection takes exactly the attributes that qualify. "
     "Event-based feature vectors and the next-activity, next-time and remaining-time targets are right for every event. "
     "Inserted arrival, finish, service, waiting and sojourn times equal their definitions on every row, keep all rows, and the temporal series aggregates them in every bucket of the period.",
     ["inputs", "configurations"], "every log (event log or dataframe, rows interleaved, missing values, with or without start timestamps) and every choice of features, targets and bucket size",
     "Tests extract features from a sample log and check that nothing fails, never the values.",
     ["pm4py/ml.py", "pm4py/algo/transformation/log_to_features", "pm4py/algo/transformation/log_to_target", "pm4py/util/pandas_utils.py", "pm4py/objects/log/util/dataframe_utils.py"],
     [("trace-based features", "pm4py/algo/transformation/log_to_features/variants/trace_based.py"), ("event-based features", "pm4py/algo/transformation/log_to_features/variants/event_based.py"),
      ("temporal features", "pm4py/algo/transformation/log_to_features/variants/temporal.py"), ("targets", "pm4py/algo/transformation/log_to_target"), ("rates", "pm4py/util/pandas_utils.py"), ("dataframe features", "pm4py/objects/log/util/dataframe_utils.py")],
     ["feature tables, target vectors, inserted columns and time series"])

prop("C38", "Alignments with DFGs, trees, logs and variants are complete and cheapest",
     "Aligning a trace with a directly-follows graph, a process tree or the traces of another log gives moves that replay the whole trace on one side and a complete path of the graph, word of the tree or trace of the other log on the other side, with a cost that counts these moves and is the least possible, and the fitness that follows from it; approximated tree alignments stay complete and never cost less than the optimum. "
     "Logs projected to a graph or variant keep exactly the conforming events of each trace with their timestamps. "
     "Net alignments computed in parallel, for variants only, from a serialized net or returned as a table have the costs, fitness and case identifiers of the plain alignments.",
     ["inputs", "configurations"], "every trace and log, graph, tree with loops of two children, log or net, standard costs (or custom ones for the path and cost clauses), serial or parallel, event log or dataframe",
     "Tests align the sample log and check that the result is returned or fits perfectly; they never compare the cost with the minimum or the moves with the model.",
     ["pm4py/algo/conformance/alignments/dfg/variants/classic.py", "pm4py/algo/conformance/alignments/process_tree", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py", "pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/conformance.py"],
     [("Dijkstra on the DFG", "pm4py/algo/conformance/alignments/dfg/variants/classic.py"), ("A* on tree states", "pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py"), ("tree replay semantics", "pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py"),
      ("approximation by integer programs", "pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py"), ("edit distance", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py"), ("variant and parallel interfaces", "pm4py/algo/conformance/alignments/petri_net/algorithm.py")],
     ["alignments, costs, fitness values, projected logs and diagnostics tables"])

prop("C39", "Data and stochastic nets follow guards, data and weights",
     "In a net with data a transition is enabled exactly when its input places hold enough tokens and its guard is true for the collected data updated with the event (a guard that cannot be evaluated, or that is not allowed, is false); executing it moves the tokens, records the event's data, leaves the given marking and its data untouched, and guards survive PNML. "
     "In a stochastic net the probability of an enabled transition is its weight divided by the weights of all the enabled ones, other transitions have probability 0, and only enabled transitions are sampled, reproducibly for a seed. "
     "In a net with stochastic arc weights the legal and the enabled bindings, their priorities, their local and global probabilities, sampling and firing follow from the weight distributions of the arcs.",
     ["inputs", "histories"], "every net, guard over numeric and string variables, sequence of firings with event data, transition weights and distributions of arc weights",
     "The tests never execute a net with data or weights.",
     ["pm4py/objects/petri_net/data_petri_nets", "pm4py/objects/petri_net/stochastic", "pm4py/objects/petri_net/saw_net"],
     [("data semantics and guards", "pm4py/objects/petri_net/data_petri_nets/semantics.py"), ("marking with data", "pm4py/objects/petri_net/data_petri_nets/data_marking.py"), ("stochastic semantics", "pm4py/objects/petri_net/stochastic/semantics.py"), ("stochastic arc weights", "pm4py/objects/petri_net/saw_net/semantics.py")],
     ["enabledness, markings with data, probabilities, bindings, samples and PNML documents"])

prop("C40", "Object-centric transformations and conversions change only what they say",
     "Dropping or merging duplicate events, reordering, time deltas, lifecycle qualifiers, exploding, renaming "
     "objects or types, turning an attribute into an object type and adding parent references change exactly what they announce, in "
     "every table, and leave the given log alone; splits and clusters give exactly the components, families and classes of equivalent "
     "families of objects. Object-centric logs built from event tables, extended tables or interleavings have exactly the events, "
     "objects, relations and attributes of the rows, and interleavings and links are those of the definition.",
     ["inputs"], "every object-centric log, every event table and pair of related logs, every parameter",
     "Tests call a few of these transformations on one sample log and look only at the number of rows.",
     ["pm4py/ocel.py", "pm4py/objects/ocel/util", "pm4py/algo/transformation/ocel/split_ocel", "pm4py/algo/discovery/ocel/interleavings",
      "pm4py/algo/discovery/ocel/link_analysis", "pm4py/convert.py"],
     [("duplicates, sorting, clustering", "pm4py/ocel.py"), ("conversions of event tables", "pm4py/objects/ocel/util/log_ocel.py"),
      ("families and components", "pm4py/algo/transformation/ocel/split_ocel/variants")],
     ["tables of the returned object-centric log, or the returned dictionary or dataframe"])

prop("C41", "Feature tables of object-centric logs hold the values of their definition",
     "For every object-centric log and every choice of feature families, the object, event and event/object feature tables have one row "
     "per object, event or relation, in the order of the log, one column per feature name without duplicates, and every value is that of "
     "its definition: lifecycle measures, counts in the interaction, descendants, inheritance, co-birth and co-death graphs, degree "
     "centrality, attributes, work in progress, starts and ends per type, new interactions and prefix measures. Nested features are the minimum, maximum or last value "
     "over the related events, objects or graph neighbours (0 without any), filtering by type keeps exactly the rows of that type, and the log is left alone.",
     ["inputs"], "every object-centric log and every selection of feature families",
     "The tests only extract feature tables from sample logs and look at none of the values.",
     ["pm4py/ml.py", "pm4py/algo/transformation/ocel/features", "pm4py/algo/transformation/ocel/graphs", "pm4py/objects/ocel/util/event_prefix_suffix_per_obj.py"],
     [("object features", "pm4py/algo/transformation/ocel/features/objects"), ("event features", "pm4py/algo/transformation/ocel/features/events"),
      ("event/object features", "pm4py/algo/transformation/ocel/features/events_objects")],
     ["feature names and values per object, event or relation"])

prop("C42", "Structural metrics and bounds of Petri nets are those of their definition",
     "For every accepting Petri net, the arc degree, extended Cardoso and extended cyclomatic metrics, the generalization and the element usage comparison "
     "have the value of their definition, and the maximal decomposition cuts the net into exactly the classes of places, silent and equally labelled transitions, "
     "keeping weights, labels and markings, so that merging the components gives the net back. "
     "The synchronous product of a trace and a net has exactly the moves of the definition, and the marking equation and extended marking equation are never above the cost of "
     "a real run or optimal alignment; no input is changed.",
     ["inputs"], "every accepting Petri net, every trace and log",
     "Tests compute one simplicity value on one sample net and only run the decomposition and the heuristics.",
     ["pm4py/algo/evaluation/simplicity", "pm4py/algo/evaluation/generalization", "pm4py/objects/petri_net/utils/decomposition.py", "pm4py/objects/petri_net/utils/synchronous_product.py",
      "pm4py/algo/analysis/marking_equation", "pm4py/algo/analysis/extended_marking_equation", "pm4py/algo/conformance/tokenreplay"],
     [("simplicity", "pm4py/algo/evaluation/simplicity/variants"), ("maximal decomposition", "pm4py/objects/petri_net/utils/decomposition.py"),
      ("marking equation", "pm4py/algo/analysis/marking_equation/variants/classic.py"), ("extended marking equation", "pm4py/algo/analysis/extended_marking_equation/variants/classic.py")],
     ["returned metric, nets, marking or bound"])

prop("C43", "Filters and utilities on directly-follows graphs are exact",
     "Filtering a directly-follows graph by percentage of activities or paths or by dependency threshold returns a sub-graph with unchanged counts that keeps at least the requested share of the "
     "most frequent (most dependent) elements, puts every remaining activity on a path from start to end, and removes everything it can without breaking that, the least frequent first. "
     "Filtering to, from or around an activity and cleaning by noise threshold return exactly the part their documentation names. "
     "Vertices, arcs, frequencies, transitive relations, components, directions, sums and matrices are those of the graph, in both representations, and no input is changed.",
     ["inputs"], "every directly-follows graph and every percentage, threshold and activity",
     "Tests filter the graph of one log at two percentages and assert nothing about the result.",
     ["pm4py/algo/filtering/dfg/dfg_filtering.py", "pm4py/objects/dfg/utils/dfg_utils.py", "pm4py/objects/dfg/util.py", "pm4py/objects/dfg/obj.py"],
     [("percentage filters", "pm4py/algo/filtering/dfg/dfg_filtering.py"), ("graph utilities", "pm4py/objects/dfg/utils/dfg_utils.py"), ("typed graph", "pm4py/objects/dfg/util.py")],
     ["returned graph or relation"])

prop("C44", "Relabelling, encoding, lifting and merging of logs keep the data",
     "Renaming activities to a short alphabet is a bijection applied to every event (the more frequent, the shorter the code), one-character encodings are injective, and contextual label splitting gives the events of an activity with the same context the same new label, joins only similar contexts, and leaves everything else alone. "
     "Attributes move to the case exactly when they are present and constant in every case; one-case-per-variant reductions, prefixes up to an activity, the class, matrix and classifier representations, index attributes, activity/case tables and the log view of a dataframe reflect the events exactly. "
     "Merging by a case relation inserts every related event into its case in time order, and clusterings and case picks partition or select whole cases.",
     ["inputs", "configurations"], "every log, attribute distribution and parameter value",
     "No test looks at the values; most of these functions are not called by any test.",
     ["pm4py/objects/log/util", "pm4py/algo/label_splitting", "pm4py/algo/merging", "pm4py/algo/clustering/profiles"],
     [("alphabet and characters", "pm4py/objects/log/util/activities_to_alphabet.py"), ("lifting attributes", "pm4py/objects/log/util/move_attrs_to_trace.py"), ("label splitting", "pm4py/algo/label_splitting/variants/contextual.py"),
      ("merging", "pm4py/algo/merging/case_relations/variants/pandas.py"), ("prefixes", "pm4py/objects/log/util/get_prefixes.py"), ("representations", "pm4py/objects/log/util/get_class_representation.py")],
     ["activities_to_alphabet.apply", "move_attrs_to_trace.apply", "label_splitting.algorithm.apply", "case_relations.algorithm.apply", "get_prefixes", "pm4py.cluster_log", "dataframe_utils.dataframe_to_activity_case_table", "dataframe_utils.sample_dataframe"])

prop("C45", "The heuristics miner follows its definition",
     "The heuristics net of a log, dataframe or directly-follows graph has exactly the dependency values, the connections above the thresholds, the loops of length two and the couples of concurrent predecessors and successors of the heuristics miner's definition (the classic and the ++ one), with the counts or average times of the log on its connections. "
     "The Petri net converted from it has one visible transition per activity of the net and exactly the behaviour of the causal net: every activity consumes one of its input bindings (a maximal set of concurrent predecessors, or the start) and produces one of its output bindings.",
     ["inputs"], "every log, every directly-follows graph and every choice of the thresholds",
     "Tests mine two logs at the default thresholds and look at nothing but the absence of exceptions.",
     ["pm4py/algo/discovery/heuristics/variants/classic.py", "pm4py/algo/discovery/heuristics/variants/plusplus.py", "pm4py/objects/heuristics_net/node.py", "pm4py/objects/heuristics_net/obj.py", "pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py"],
     [("classic miner", "pm4py/algo/discovery/heuristics/variants/classic.py"), ("++ miner", "pm4py/algo/discovery/heuristics/variants/plusplus.py"), ("bindings", "pm4py/objects/heuristics_net/node.py"), ("conversion to a Petri net", "pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py")],
     ["heuristics net", "Petri net"])

prop("C46", "POWL miner guarantees",
     "Without filtering, every variant of the POWL miner returns a model that (like its Petri net) can replay every trace of the log, has exactly its "
     "activities, and whose orders are strict partial orders (irreflexive and transitive); with filtering no activity outside the log appears. "
     "A partial order over distinct activities, choices of activities and optional activities is rediscovered (same language) by the maximal, brute-force and "
     "dynamic-clustering variants from a log that covers its behaviour.",
     ["inputs", "configurations"], "every event log including empty traces, repeats and parallelism",
     "Tests mine one log per variant; perfect fitness is promised for every log.",
     ["pm4py/algo/discovery/powl", "pm4py/algo/discovery/inductive/cuts", "pm4py/objects/powl/obj.py", "pm4py/objects/powl/BinaryRelation.py", "pm4py/discovery.py"],
     [("partial order cuts", "pm4py/algo/discovery/powl/inductive/variants"), ("simplification", "pm4py/objects/powl/obj.py")],
     ["pm4py.discover_powl", "pm4py.convert_to_petri_net"])

prop("C47", "Generated process trees obey the parameters; reduction by a trace",
     "The PTandLogGenerator yields as many trees as asked for, with binary operators of positive weight only, between min and max distinctly labelled "
     "activities and no silent leaf unless asked for; the basic generator yields a sequence start, process, end within the depth bounds. "
     "Reducing a process tree by a trace gives a tree without new behaviour that accepts the same words over the activities of the trace, without "
     "skippable parts that have none of them, and leaves the original tree unchanged.",
     ["inputs", "configurations"], "every parameter setting and seed; every tree and trace",
     "Tests only generate a tree and drop it; the reduction is not tested.",
     ["pm4py/algo/simulation/tree_generator", "pm4py/algo/reduction/process_tree", "pm4py/sim.py"],
     [("generators", "pm4py/algo/simulation/tree_generator/variants"), ("reduction", "pm4py/algo/reduction/process_tree/variants/tree_tr_based.py")],
     ["pm4py.generate_process_tree", "pm4py.algo.simulation.tree_generator.algorithm.apply", "pm4py.algo.reduction.process_tree.reducer.apply"])

prop("C48", "Interval and lifecycle logs say the same; lead, cycle and idle time",
     "Converting a lifecycle log to intervals pairs each completion with the earliest open start of its activity and instance (a completion without start is instantaneous), "
     "keeps attributes and orders by start; converting intervals to lifecycle events gives a start and a completion per interval in time order; neither changes a log already in that form. "
     "At each event the lead time is the (working) time since the case began, the cycle time the part of it in which something was in execution, the idle time the rest.",
     ["inputs", "histories"], "every lifecycle and interval log, attribute names and business hours",
     "Tests only call the conversions on one log and compare nothing.",
     ["pm4py/objects/log/util/interval_lifecycle.py"],
     [("conversions", "pm4py/objects/log/util/interval_lifecycle.py (to_interval, to_lifecycle)"), ("times", "pm4py/objects/log/util/interval_lifecycle.py (assign_lead_cycle_time)")],
     ["pm4py.objects.log.util.interval_lifecycle.to_interval", "pm4py.objects.log.util.interval_lifecycle.to_lifecycle", "pm4py.objects.log.util.interval_lifecycle.assign_lead_cycle_time"])

prop("C49", "Batches: what one resource does of one activity in one go",
     "For each activity and resource the batches are exactly the groups of at least the given size of events connected by overlapping or following each other within the merge distance, "
     "each event in one group, whatever the order of the rows. A batch spans from its first start to its last completion and is simultaneous, at start, at end, sequential or concurrent according to its events. "
     "Combinations are listed by decreasing number of batches, in both log representations and with any attribute names.",
     ["inputs", "configurations"], "every log, row order, merge distance and batch size",
     "Tests only call the discovery on one log and compare nothing.",
     ["pm4py/algo/discovery/batches", "pm4py/discovery.py"],
     [("detection", "pm4py/algo/discovery/batches/utils/detection.py"), ("variants", "pm4py/algo/discovery/batches/variants")],
     ["pm4py.discover_batches", "pm4py.algo.discovery.batches.algorithm.apply"])

prop("C50", "Distances of stochastic languages, causal graphs, correlation mining",
     "The earth mover distance of two stochastic languages is the least mean (normalised edit, or given) distance over all ways to move their mass: symmetric, zero exactly for equal languages, defined also with empty traces. "
     "The causal graphs follow from the counts of the directly-follows graph alone. "
     "Correlation mining, given any attribute names, yields arcs whose counts enter and leave each activity exactly as often as it occurs, with the smaller average time of the first-in-first-out and last-in-first-out matchings.",
     ["inputs", "configurations"], "every pair of languages, every directly-follows graph, every log with or without cases",
     "Tests only compare a log with itself or call the miners.",
     ["pm4py/algo/evaluation/earth_mover_distance", "pm4py/algo/discovery/causal", "pm4py/algo/discovery/correlation_mining"],
     [("distance", "pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py"), ("causal", "pm4py/algo/discovery/causal/variants"), ("correlation", "pm4py/algo/discovery/correlation_mining")],
     ["pm4py.compute_emd", "pm4py.algo.discovery.causal.algorithm.apply", "pm4py.algo.discovery.correlation_mining.algorithm.apply"])

prop("C51", "Anonymised trace variants grow from the frequent prefixes of the log",
     "A trace variant query returns words over the activities of the log of at most the given length; as the noise vanishes it returns exactly the words whose prefixes occur at least as often as the pruning threshold, as often as they occur "
     "(the semantics-aware query also keeps words cut at the length bound). The log is left unchanged.",
     ["inputs", "configurations"], "every log, length bound, threshold and noise",
     "The anonymisation has no test in the stable suite.",
     ["pm4py/algo/anonymization/trace_variant_query", "pm4py/privacy.py"],
     [("queries", "pm4py/algo/anonymization/trace_variant_query/variants"), ("semantics", "pm4py/algo/anonymization/trace_variant_query/util")],
     ["pm4py.algo.anonymization.trace_variant_query.algorithm.apply"])
