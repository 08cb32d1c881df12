"""Per property: where the specification is deliberately silent (inputs left out, or answers left free), and why."""
NOTES = {
"C03": "Terminating inputs only: large unbounded nets are skipped; the complete diagnosis is compared only when the short-circuited net is bounded; the easy-soundness search only with at most 150 markings.",
"C04": "Nets are bounded; the exponential rules for reset/inhibitor nets run on nets with at most nine places and transitions.",
"C05": "The tweaked variant is known to be inexact (known findings); its well-formedness is still judged.",
"C07": "The marking-equation preprocessing and the backward variant are outside; results are judged relationally (token accounting, fitness formula, exactness on nets without silent transitions).",
"C10": "Inclusive gateways through BPMN -> net are not nested and every branch is optional; net -> BPMN is restricted to single-token workflow nets.",
"C11": "Single-activity trees print without quotes and are excluded; labels without apostrophes/newlines; indented text without brackets/commas in labels; PTML without interleaving; POWL text restricted to its label alphabet; the binary normal form is not checked for interleaving.",
"C12": "Extensive tree play-out is checked for seq/xor/par/loop with an explicit loop bound; OR/interleaving in the sampling play-outs; DFG play-out with an occurrence bound.",
"C13": "Place and transition names disjoint, non-empty final marking, non-empty visible labels, no newlines; gateway names and event definitions are not written by the BPMN exporter; layout compared except under auto-layout; encodings utf-8 and iso-8859-1.",
"C14": "Rows of a case in time order; interval events sorted by (start, complete).",
"C15": "Arrival average with at least two cases; business-hour slots inside one week in multiples of 900 s; standard deviation through the variance; the deviation of a single value is free.",
"C16": "Frequent trace segments are not covered (prefixspan is not installed).",
"C17": "Start/end/attribute filters on empty traces are free; the numeric case filter only positive; labels without commas; shares in eighths.",
"C18": "Traces that become empty are ignored; labels without commas; relative stakes in eighths.",
"C19": "Nested attributes with iterparse/in-memory only (iterparse_20 without lists; chunk_regex and line_by_line simple attributes only); concept:name is always read as a string; naive timestamps become UTC; numpy datetime64 outside; case attributes uniform within a case.",
"C21": "The rule for streaming token replay is relational; the redis dictionary variant needs a server and is not covered.",
"C22": "Controlled scheduler (synchronisation points or source lines), free-running fallback; restarting a stopped stream is not covered.",
"C23": "The count filter is not exercised with several qualifiers per pair.",
"C24": "No multi-qualifier pairs; nets of the plain miner must accept the flattened traces, nets of the DFG-based miner only labels and variable arcs; discovery on object types without related events raises KeyError and is excluded.",
"C25": "Logs whose events and objects all have relations; rows compared as bags, events and relations in time order; numeric attributes are non-integer floats; attribute names differ in more than case.",
"C26": "Allowed templates closed under dependencies; considered activities project the traces first; automatic thresholds relational.",
"C27": "Noise thresholds in eighths; relations need one satisfying occurrence; ties of activity frequency are free; discovery from variants compared at zero noise.",
"C28": "Elapsed times small; equality at the boundary is free for the discovered profile and exact for dyadic profiles.",
"C29": "Alpha+ self-loops are attached to places containing (A\\B, B\\A) when both are non-empty; the artificial start/end are specified too.",
"C30": "Zero-length cases are excluded; event data only for event logs.",
"C31": "Alignment precision uses the markings of the cheapest prefix replays; token-based precision only on nets without silent transitions and with distinct labels.",
"C32": "Gateways with explicit direction, no converging inclusive gateway; sub-process bodies block-structured; words compared for diagrams without boundary events.",
"C33": "Distinct timestamps for network analysis; similarity with at least two activities; ties at role thresholds are free; averages over empty sets are not requested.",
"C34": "Event-log train/test split may differ by one case; DataFrame splits are random per case (only shares 0 and 1 exact); component samples leave links across components free.",
"C35": "OCELs with every event and object related; results of non-deterministic functions are not compared, only their effects on the inputs; after an input-changing call the history goes on with fresh inputs.",
"C37": "Temporal features need a resource column; column names without blanks in DataFrame features; locally linear embedding is not covered.",
"C38": "Decomposed alignments are not covered (recomposition does not terminate on simple nets); tree loops are binary and minimality is not required when loops are nested (known finding); custom DFG costs: path and cost clauses only (known finding); approximations must be real moves with a cost that is not below the optimum.",
"C40": "Renaming, families and clusters only with all objects related; parent and child types differ; event tables have at least one object; links without missing values and with distinct times; exploded events: identifier, activity and time only; the order among simultaneous relations of a new object type is free.",
"C41": "One relation per event and object; work in progress only with all objects related; string attributes are strings; related-object and related-event features are not nested in each other.",
"C42": "Extended cyclomatic is silent on reachability graphs with parallel edges (the code counts one edge per pair of states); the extended marking equation is only asked for traces of two or more events; exactness of the marking equation is only required of state machines (totally unimodular).",
"C43": "Ties among equally frequent elements may be broken either way; the dependency of a self loop is left open (the code gives 0, the Heuristics Miner defines n/(n+1)).",
"C45": "The random tie-breaking-free parts only: binding frequencies and the arcs of the Petri net follow the spec of Heur.tla; unused node flags (is_start_activity, is_end_activity) are not judged.",
"C46": "With filtering (weight factor, order ratio below 1) only the alphabet and the well-formedness of the orders are judged.",
"C48": "Times are judged for intervals ordered by start (the order the conversion produces); a log whose first case is empty is only judged as a lifecycle log (the form is recognised from the first event).",
"C47": "Trees generated with silent or duplicate activities are judged on shape and bounds, not on the distribution of operators.",
"C44": "Which of several optimal communities the modularity clustering picks is left open (labels only have to stay inside connected groups of similar contexts); clusters depend on further attributes, so only the partition is checked.",
"C39": "Decision mining is not covered; stochastic-arc-weight bindings limited to distributions of three options and two arcs per side.",
}
CORRECTED = [
"C03: unbounded nets on which the coverability construction needs hours were generated; the generator now bounds them.",
"C07: the first rule demanded equality of remaining tokens with the specification's greedy replay; the code's choice between silent paths is legitimate, so the rule is now relational where silent transitions exist.",
"C19/C25: naive timestamps and numeric columns change representation by design; values are compared modulo UTC and int/float.",
"C19: nodes of the networkx graph are identified by value, so False and 0 are one node; the first rule counted two.",
"C27: relations without any satisfying occurrence were first demanded; the published definition needs one.",
"C34: tree round trips compare modulo child order of xor/par and grouping of redo parts.",
"C35: calls documented as in-place (for instance adding columns on request) are modelled as such and not reported.",
]
