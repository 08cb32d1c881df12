From c8047db0eed71a245532952175f92d7cba36e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 001/151] fix: check_wfnet must follow the direction of the
 arcs

---
 pm4py/objects/petri_net/utils/check_soundness.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/check_soundness.py b/pm4py/objects/petri_net/utils/check_soundness.py
index 3d41423..147de1c 100644
--- a/pm4py/objects/petri_net/utils/check_soundness.py
+++ b/pm4py/objects/petri_net/utils/check_soundness.py
@@ -14,7 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_undirected_graph
+from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_directed_graph_ret_dict_both_ways
 from pm4py.objects.petri_net.utils import explore_path
 from pm4py.objects.petri_net import obj
 from pm4py.util import nx_utils
@@ -39,8 +39,9 @@ def check_source_and_sink_reachability(net, unique_source, unique_sink):
     boolean
         Boolean value that is true if each node is in a path from the source place to the sink place
     """
-    graph, unique_source_corr, unique_sink_corr, inv_dictionary = create_networkx_undirected_graph(net, unique_source,
-                                                                                                   unique_sink)
+    graph, dictionary, inv_dictionary = create_networkx_directed_graph_ret_dict_both_ways(net)
+    unique_source_corr = dictionary[unique_source] if unique_source in dictionary else None
+    unique_sink_corr = dictionary[unique_sink] if unique_sink in dictionary else None
     if unique_source_corr is not None and unique_sink_corr is not None:
         nodes_list = list(graph.nodes())
         finish_to_sink = list(nx_utils.ancestors(graph, unique_sink_corr))
-- 
2.43.0


From 4dcf46e2b5676933c416178cd49ef829d4d68954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 002/151] fix: Murata reduction must test every place on its
 own with the net token change of each transition

---
 pm4py/objects/petri_net/utils/murata.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/murata.py b/pm4py/objects/petri_net/utils/murata.py
index a6ae185..03bdc48 100644
--- a/pm4py/objects/petri_net/utils/murata.py
+++ b/pm4py/objects/petri_net/utils/murata.py
@@ -47,13 +47,14 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
     fm
         Final marking
     """
-    Aeq = []
-    Aub = []
-    beq = []
-    bub = []
     places = sorted(list(net.places), key=lambda x: x.name)
     redundant = set()
     for place in places:
+        Aeq = []
+        Aub = []
+        beq = []
+        bub = []
+
         # first constraint
         constraint = [0] * (len(net.places) + 1)
         for p2 in im:
@@ -89,9 +90,16 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
                 p2 = arc.target
                 if p2 not in redundant:
                     if p2 == place:
-                        constraint[places.index(p2)] = -arc.weight
+                        constraint[places.index(p2)] -= arc.weight
                     else:
-                        constraint[places.index(p2)] = arc.weight
+                        constraint[places.index(p2)] += arc.weight
+            for arc in trans.in_arcs:
+                p2 = arc.source
+                if p2 not in redundant:
+                    if p2 == place:
+                        constraint[places.index(p2)] += arc.weight
+                    else:
+                        constraint[places.index(p2)] -= arc.weight
             Aub.append(constraint)
             bub.append(0)
 
-- 
2.43.0


From 1038cd463e991a53a1bb0649359f5c8d0c3a5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 003/151] fix: silent-transition reduction must keep arc
 weights

---
 pm4py/objects/petri_net/utils/reduction.py | 29 ++++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 84a1cea..c6dea59 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -20,6 +20,17 @@ import itertools
 from itertools import combinations, chain
 
 
+def __add_weighted_arc(source, target, net, weight):
+    """
+    Adds an arc with the given weight (if the two nodes are already connected, the weight of the arc is increased)
+    """
+    for arc in source.out_arcs:
+        if arc.target is target:
+            arc.weight += weight
+            return
+    add_arc_from_to(source, target, net, weight=weight)
+
+
 def reduce_single_entry_transitions(net):
     """
     Reduces the number of the single entry transitions in the Petri net
@@ -36,13 +47,14 @@ def reduce_single_entry_transitions(net):
         for i in range(len(single_entry_transitions)):
             t = single_entry_transitions[i]
             source_place = list(t.in_arcs)[0].source
-            target_places = [a.target for a in t.out_arcs]
-            if len(source_place.in_arcs) == 1 and len(source_place.out_arcs) == 1:
+            target_places = [(a.target, a.weight) for a in t.out_arcs]
+            if len(source_place.in_arcs) == 1 and len(source_place.out_arcs) == 1 and \
+                    list(source_place.in_arcs)[0].weight == list(t.in_arcs)[0].weight:
                 source_transition = list(source_place.in_arcs)[0].source
                 remove_transition(net, t)
                 remove_place(net, source_place)
-                for p in target_places:
-                    add_arc_from_to(source_transition, p, net)
+                for p, weight in target_places:
+                    __add_weighted_arc(source_transition, p, net, weight)
                 cont = True
                 break
     return net
@@ -64,13 +76,14 @@ def reduce_single_exit_transitions(net):
         for i in range(len(single_exit_transitions)):
             t = single_exit_transitions[i]
             target_place = list(t.out_arcs)[0].target
-            source_places = [a.source for a in t.in_arcs]
-            if len(target_place.in_arcs) == 1 and len(target_place.out_arcs) == 1:
+            source_places = [(a.source, a.weight) for a in t.in_arcs]
+            if len(target_place.in_arcs) == 1 and len(target_place.out_arcs) == 1 and \
+                    list(target_place.out_arcs)[0].weight == list(t.out_arcs)[0].weight:
                 target_transition = list(target_place.out_arcs)[0].target
                 remove_transition(net, t)
                 remove_place(net, target_place)
-                for p in source_places:
-                    add_arc_from_to(p, target_transition, net)
+                for p, weight in source_places:
+                    __add_weighted_arc(p, target_transition, net, weight)
                 cont = True
                 break
     return net
-- 
2.43.0


From 12e2e62dc62c6fc0748a9c909149358904762350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 004/151] fix: synchronous product and incidence matrix keep
 the arc weights

---
 .../petri_net/utils/incidence_matrix.py       |  4 ++--
 .../petri_net/utils/synchronous_product.py    | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From 4f6d4aa96a0bc4b8ea9c9fe210e7fcaaa01d53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 005/151] fix: Dijkstra (less memory) alignments no longer
 discard states of the optimal path

---
 .../petri_net/variants/dijkstra_less_memory.py  | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..72bc535 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -476,9 +476,7 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    return ns[0] in closed and ns[1] in closed[ns[0]]
 
 
 def __add_closed(closed, ns):
@@ -492,7 +490,9 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    if ns[0] not in closed:
+        closed[ns[0]] = set()
+    closed[ns[0]].add(ns[1])
 
 
 def __add_to_open_set(open_set, ns):
@@ -620,9 +620,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
         # retrieves the transitions that are enabled in the current marking
         en_t = [t for t in trans_pre_dict if __dict_leq(trans_pre_dict[t], curr_m)]
         this_closed = set()
-        j = 0
-        while j < len(en_t):
-            t = en_t[j]
+        for t in en_t:
             # checks if a given transition can be executed in sync with the trace
             is_sync = trans_labels_dict[t] == transf_trace[-curr[POSITION_INDEX]] if -curr[POSITION_INDEX] < len(
                 transf_trace) else False
@@ -640,11 +638,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
-                del en_t[j]
-                continue
-            j = j + 1
         en_t.sort(key=lambda t: transf_model_cost_function[t])
         j = 0
         while j < len(en_t):
-- 
2.43.0


From 857c6fc436a8856f43b87417ad96b204167226cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 006/151] fix: alignment fitness counts the trace in the worst
 cost for every variant, and an empty trace accepted by the model fits

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..60397bd 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -145,7 +145,8 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
     ali = exec_utils.get_variant(variant).apply(trace, petri_net, initial_marking, final_marking,
                                                  parameters=parameters)
 
-    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, [])
+    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters,
+                                                     [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace))
     # Instead of using the length of the trace, use the sum of the trace cost function
     trace_cost_function_sum = sum(trace_cost_function)
 
@@ -158,7 +159,7 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 1
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From 592523546c120b8e2cc34f1b1d2cfe8ad36225c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 007/151] fix: bottom-up order of process trees with equally
 labelled leaves

---
 pm4py/objects/process_tree/utils/bottomup.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index df0b9e1..9660d94 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -211,26 +211,16 @@ def get_bottomup_nodes(tree, parameters=None):
         parameters = {}
 
     to_visit = [tree]
-    all_nodes = set()
+    # (nodes with the same label compare as equal, hence the nodes are collected in a list)
+    all_nodes = []
     while len(to_visit) > 0:
         n = to_visit.pop(0)
-        all_nodes.add(n)
+        all_nodes.append(n)
         for child in n.children:
             to_visit.append(child)
     # starts to visit the tree from the leafs
     bottomup = [x for x in all_nodes if len(x.children) == 0]
-    # then add iteratively the parent
-    i = 0
-    while i < len(bottomup):
-        parent = bottomup[i].parent
-        if parent is not None and parent not in bottomup:
-            is_ok = True
-            for child in parent.children:
-                if not child in bottomup:
-                    is_ok = False
-                    break
-            if is_ok:
-                bottomup.append(parent)
-        i = i + 1
+    # then add the inner nodes, each one after all its children
+    bottomup += [x for x in reversed(all_nodes) if len(x.children) > 0]
 
     return bottomup
-- 
2.43.0


From 80c3b5298e0033a0aeb731c73e6d410f8df243d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 008/151] fix: token-based replay inserts exactly the missing
 tokens of weighted arcs

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..0cd102c 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
-- 
2.43.0


From f2fab6e79c778c7747661b4578a665ac36350089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 009/151] fix: a replayed trace with tokens missing in the
 final marking is not fitting

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 0cd102c..c0f0c69 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -681,7 +681,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and (len(diff_fin_mark_mark) == 0)
     else:
         is_fit = (missing == 0)
 
-- 
2.43.0


From 911e5eb70603db1f39308f6c0fdb45dd7672ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 010/151] fix: activities that are not in the model make only
 their own trace unfitting (token-based replay)

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index c0f0c69..1727575 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -685,7 +685,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and any(event[activity_key] not in trans_map for event in trace):
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
-- 
2.43.0


From 594dee588320edd20cad64cd92d50796135527bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 011/151] fix: footprints and minimum trace length of
 inclusive-choice (OR) nodes in process trees

---
 .../footprints/tree/variants/bottomup.py      | 30 ++++++++++++++++++-
 pm4py/objects/process_tree/utils/bottomup.py  |  4 +--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
index a06ac77..0d563d1 100644
--- a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
+++ b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
@@ -200,6 +200,32 @@ def get_footprints_parallel(node, footprints_dictio):
             ACTIVITIES_ALWAYS_HAPPENING: activities_always_happening}
 
 
+def get_footprints_or(node, footprints_dictio):
+    """
+    Gets the footprints for the (inclusive) OR node
+
+    Parameters
+    ---------------
+    node
+        Node
+    footprints_dictio
+        Dictionary of footprints of the process tree
+
+    Returns
+    ---------------
+    footprints
+        Footprints of the OR node
+    """
+    # any non-empty subset of the children is executed, in parallel: the relations are the ones of the parallel node,
+    # but (as in the XOR node) executing a single child is enough
+    footprints = get_footprints_parallel(node, footprints_dictio)
+    xor_footprints = get_footprints_xor(node, footprints_dictio)
+    footprints[SKIPPABLE] = xor_footprints[SKIPPABLE]
+    footprints[ACTIVITIES_ALWAYS_HAPPENING] = xor_footprints[ACTIVITIES_ALWAYS_HAPPENING]
+
+    return footprints
+
+
 def get_footprints_sequence(node, footprints_dictio):
     """
     Gets the footprints for the sequence
@@ -365,8 +391,10 @@ def get_footprints(node, footprints_dictio):
         return get_footprints_leaf(node, footprints_dictio)
     elif node.operator == Operator.XOR:
         return get_footprints_xor(node, footprints_dictio)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL:
         return get_footprints_parallel(node, footprints_dictio)
+    elif node.operator == Operator.OR:
+        return get_footprints_or(node, footprints_dictio)
     elif node.operator == Operator.SEQUENCE:
         return get_footprints_sequence(node, footprints_dictio)
     elif node.operator == Operator.LOOP:
diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index 9660d94..63ba9e5 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -183,9 +183,9 @@ def get_min_length_dict(node, min_length_dict):
             min_length_dict[node] = 0
         else:
             min_length_dict[node] = 1
-    elif node.operator == Operator.XOR:
+    elif node.operator == Operator.XOR or node.operator == Operator.OR:
         min_length_dict[node] = min(min_length_dict[x] for x in node.children)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE:
         min_length_dict[node] = sum(min_length_dict[x] for x in node.children)
     elif node.operator == Operator.LOOP:
         min_length_dict[node] = min_length_dict[node.children[0]]
-- 
2.43.0


From af8755059037294aa80876508ad458d4a1d007b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 012/151] fix: typed DFG discovery counts the first
 directly-follows pair of each case

---
 pm4py/algo/discovery/dfg/variants/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/variants/clean.py b/pm4py/algo/discovery/dfg/variants/clean.py
index 2c99756..d33d191 100644
--- a/pm4py/algo/discovery/dfg/variants/clean.py
+++ b/pm4py/algo/discovery/dfg/variants/clean.py
@@ -56,7 +56,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[str, Any]] = None) -> DFG
 
     starters = df[(df[aux_act_start] == CONST_PROCESS_START)]
     borders = df[(df[aux_act_end] == CONST_PROCESS_END)]
-    connections = df[((df[aux_act_start] != CONST_PROCESS_START) & (df[aux_act_end] != CONST_PROCESS_END))]
+    connections = df[(df[aux_act_end] != CONST_PROCESS_END)]
 
     dfg = DFG()
 
-- 
2.43.0


From b7bc1c9a7e6717d9baa3ecad409e286bb6780c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 013/151] fix: footprints of loops with several redo children
 and of nets with duplicate labels

---
 .../footprints/petri/variants/reach_graph.py  |  2 ++
 .../footprints/tree/variants/bottomup.py      | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
index 92bf741..77ec45a 100644
--- a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
+++ b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
@@ -89,6 +89,8 @@ def apply(net: PetriNet, im: Marking, parameters: Optional[Dict[Any, Any]] = Non
 
     parallel = {(x.label, y.label) for (x, y) in parallel}
     sequence = {(x.label, y.label) for (x, y) in sequence}
+    # with duplicate labels, the same pair may be obtained from different transitions
+    sequence = sequence.difference(parallel)
 
     par_els = {(x[0], x[1]) for x in sequence if (x[1], x[0]) in sequence}
     for el in par_els:
diff --git a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
index 0d563d1..9a42aac 100644
--- a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
+++ b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
@@ -331,7 +331,10 @@ def get_footprints_loop(node, footprints_dictio):
         activities = activities.union(n[ACTIVITIES])
 
     do = footprints_dictio[node.children[0]]
-    redo = footprints_dictio[node.children[1]]
+    redos = [footprints_dictio[n] for n in node.children[1:]]
+    redo_starts = set().union(*(n[START_ACTIVITIES] for n in redos))
+    redo_ends = set().union(*(n[END_ACTIVITIES] for n in redos))
+    redo_skippable = any(n[SKIPPABLE] for n in redos)
 
     skippable = do[SKIPPABLE]
 
@@ -340,26 +343,26 @@ def get_footprints_loop(node, footprints_dictio):
 
     start_activities = start_activities.union(do[START_ACTIVITIES])
     if do[SKIPPABLE]:
-        start_activities = start_activities.union(redo[START_ACTIVITIES])
+        start_activities = start_activities.union(redo_starts)
 
     end_activities = end_activities.union(do[END_ACTIVITIES])
     if do[SKIPPABLE]:
-        end_activities = end_activities.union(redo[END_ACTIVITIES])
+        end_activities = end_activities.union(redo_ends)
 
     for a1 in do[END_ACTIVITIES]:
-        for a2 in redo[START_ACTIVITIES]:
+        for a2 in redo_starts:
             sequence.add((a1, a2))
 
-    for a1 in redo[END_ACTIVITIES]:
+    for a1 in redo_ends:
         for a2 in do[START_ACTIVITIES]:
             sequence.add((a1, a2))
 
     if do[SKIPPABLE]:
-        for a1 in redo[END_ACTIVITIES]:
-            for a2 in redo[START_ACTIVITIES]:
+        for a1 in redo_ends:
+            for a2 in redo_starts:
                 sequence.add((a1, a2))
 
-    if redo[SKIPPABLE]:
+    if redo_skippable:
         for a1 in do[END_ACTIVITIES]:
             for a2 in do[START_ACTIVITIES]:
                 sequence.add((a1, a2))
-- 
2.43.0


From 7aea9ff148201bdd1e313d6071c7fd52916284b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 014/151] fix: inductive mining of directly-follows graphs
 keeps every arc, start and end activity replayable

---
 .../discovery/inductive/cuts/concurrency.py   |  6 ++
 pm4py/algo/discovery/inductive/cuts/loop.py   |  4 +-
 .../algo/discovery/inductive/cuts/sequence.py | 58 +++++++------------
 .../algo/discovery/inductive/variants/imd.py  | 10 ++++
 4 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/concurrency.py b/pm4py/algo/discovery/inductive/cuts/concurrency.py
index 09f5d53..1ec7fbd 100644
--- a/pm4py/algo/discovery/inductive/cuts/concurrency.py
+++ b/pm4py/algo/discovery/inductive/cuts/concurrency.py
@@ -114,6 +114,12 @@ class ConcurrencyCutDFG(ConcurrencyCut[IMDataStructureDFG]):
             for (a, b) in obj.dfg.graph:
                 if a in g and b in g:
                     dfn.graph[(a, b)] = obj.dfg.graph[(a, b)]
+            # activities that follow (precede) only activities of the other groups start (end) this group
+            for (a, b) in obj.dfg.graph:
+                if b in g and b not in obj.dfg.start_activities and not any(y == b and x != b for (x, y) in dfn.graph):
+                    dfn.start_activities[b] += obj.dfg.graph[(a, b)]
+                if a in g and a not in obj.dfg.end_activities and not any(x == a and y != a for (x, y) in dfn.graph):
+                    dfn.end_activities[a] += obj.dfg.graph[(a, b)]
             skippable.append(False)
             dfgs.append(dfn)
         r = list()
diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 6cb178d..d8067aa 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -202,7 +202,7 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
     def project(cls, obj: IMDataStructureUVCL, groups: List[Collection[Any]], parameters: Optional[Dict[str, Any]] = None) -> List[IMDataStructureDFG]:
         dfg = obj.dfg
         dfgs = []
-        skippable = [False, False]
+        skippable = [False for g in groups]
         for gind, g in enumerate(groups):
             dfn = DFG()
             for (a, b) in dfg.graph:
@@ -221,7 +221,7 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
                         dfn.end_activities[a] = dfg.end_activities[a]
                     else:
                         skippable[1] = True
-            elif gind == 1:
+            else:
                 for a in g:
                     dfn.start_activities[a] = 1
                     dfn.end_activities[a] = 1
diff --git a/pm4py/algo/discovery/inductive/cuts/sequence.py b/pm4py/algo/discovery/inductive/cuts/sequence.py
index 808b86b..221f558 100644
--- a/pm4py/algo/discovery/inductive/cuts/sequence.py
+++ b/pm4py/algo/discovery/inductive/cuts/sequence.py
@@ -229,41 +229,27 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
         while i < len(groups):
             to_succ_arcs = Counter()
             from_prev_arcs = Counter()
-            if i < len(groups) - 1:
-                for (a, b) in dfg.graph:
-                    if a in groups[i] and b in groups[i + 1]:
-                        to_succ_arcs[a] += dfg.graph[(a, b)]
-
-            if i > 0:
-                for (a, b) in dfg.graph:
-                    if a in groups[i - 1] and b in groups[i]:
-                        from_prev_arcs[b] += dfg.graph[(a, b)]
-
-            if i == 0:
-                start_activities.append({})
-                for a in dfg.start_activities:
-                    if a in groups[i]:
-                        start_activities[i][a] = dfg.start_activities[a]
-                    else:
-                        j = i
-                        while j < activities_idx[a]:
-                            skippable[j] = True
-                            j = j + 1
-            else:
-                start_activities.append(from_prev_arcs)
-
-            if i == len(groups) - 1:
-                end_activities.append({})
-                for a in dfg.end_activities:
-                    if a in groups[i]:
-                        end_activities[i][a] = dfg.end_activities[a]
-                    else:
-                        j = activities_idx[a] + 1
-                        while j <= i:
-                            skippable[j] = True
-                            j = j + 1
-            else:
-                end_activities.append(to_succ_arcs)
+            for (a, b) in dfg.graph:
+                # the groups in between may be skipped
+                if activities_idx[a] == i and activities_idx[b] > i:
+                    to_succ_arcs[a] += dfg.graph[(a, b)]
+                if activities_idx[a] < i and activities_idx[b] == i:
+                    from_prev_arcs[b] += dfg.graph[(a, b)]
+
+            for a in dfg.start_activities:
+                if activities_idx[a] == i:
+                    from_prev_arcs[a] += dfg.start_activities[a]
+                elif activities_idx[a] > i:
+                    skippable[i] = True
+
+            for a in dfg.end_activities:
+                if activities_idx[a] == i:
+                    to_succ_arcs[a] += dfg.end_activities[a]
+                elif activities_idx[a] < i:
+                    skippable[i] = True
+
+            start_activities.append(from_prev_arcs)
+            end_activities.append(to_succ_arcs)
 
             activities.append({})
             act_count = dfu.get_vertex_frequencies(dfg)
@@ -286,7 +272,7 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
             z = activities_idx[b]
             j = activities_idx[a] + 1
             while j < z:
-                skippable[j] = False
+                skippable[j] = True
                 j = j + 1
 
         return [IMDataStructureDFG(InductiveDFG(dfg=dfgs[i], skip=skippable[i])) for i in range(len(dfgs))]
diff --git a/pm4py/algo/discovery/inductive/variants/imd.py b/pm4py/algo/discovery/inductive/variants/imd.py
index b6240fe..a3ba343 100644
--- a/pm4py/algo/discovery/inductive/variants/imd.py
+++ b/pm4py/algo/discovery/inductive/variants/imd.py
@@ -14,12 +14,22 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from typing import Dict, Any, Optional
+
 from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureDFG
+from pm4py.algo.discovery.inductive.fall_through.empty_traces import EmptyTracesDFG
 from pm4py.algo.discovery.inductive.variants.abc import InductiveMinerFramework
 from pm4py.algo.discovery.inductive.variants.instances import IMInstance
+from pm4py.objects.process_tree.obj import ProcessTree
 
 
 class IMD(InductiveMinerFramework[IMDataStructureDFG]):
 
     def instance(self) -> IMInstance:
         return IMInstance.IMd
+
+    def apply(self, obj: IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
+        empty_traces = EmptyTracesDFG.apply(obj, parameters=parameters)
+        if empty_traces is not None:
+            return self._recurse(empty_traces[0], empty_traces[1], parameters)
+        return super().apply(obj, parameters)
-- 
2.43.0


From 2d23688c6ca66a0c33973a8b48865b5d4c97b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 015/151] fix: nets of directly-follows graphs keep start/end
 activities without arcs; a net with one silent transition converts to a tree

---
 .../dfg/variants/to_petri_net_activity_defines_place.py        | 3 ++-
 pm4py/objects/conversion/wf_net/variants/to_process_tree.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
index 9b3d699..a7f1af7 100644
--- a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
+++ b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
@@ -50,7 +50,8 @@ def apply(dfg, parameters=None):
                                                       dfg))
     end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters,
                                                 dfg_utils.infer_end_activities(dfg))
-    activities = dfg_utils.get_activities_from_dfg(dfg)
+    # start/end activities may have no arc in the DFG (cases with a single event)
+    activities = set(dfg_utils.get_activities_from_dfg(dfg)).union(start_activities).union(end_activities)
 
     net = PetriNet("")
     im = Marking()
diff --git a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
index 42f1b61..47aaf5d 100644
--- a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
+++ b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
@@ -358,7 +358,7 @@ def apply(net, im, fm, parameters=None):
         return grouped_net
     else:
         if len(grouped_net.transitions) == 1:
-            pt_str = list(grouped_net.transitions)[0].label
+            pt_str = generate_label_for_transition(list(grouped_net.transitions)[0])
             pt = parse(pt_str)
             ret = pt_util.fold(pt) if fold else pt
             tree_sort(ret)
-- 
2.43.0


From e28e5e2fcbd47bf0eb042a100d7015fd960ddb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 016/151] fix: PTML export of loops with several redo children

---
 pm4py/objects/process_tree/exporter/variants/ptml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/exporter/variants/ptml.py b/pm4py/objects/process_tree/exporter/variants/ptml.py
index b15871d..13a1959 100644
--- a/pm4py/objects/process_tree/exporter/variants/ptml.py
+++ b/pm4py/objects/process_tree/exporter/variants/ptml.py
@@ -85,8 +85,14 @@ def export_ptree_tree(tree, parameters=None):
 
     # make sure that in the exporting, loops have 3 children
     # (for ProM compatibility)
-    # just add a skip as third child
+    # just add a skip as third child (in PTML, the third child is executed when leaving the loop,
+    # so several redo children become a choice)
     for node in nodes:
+        if node.operator == Operator.LOOP and len(node.children) > 2:
+            redo = ProcessTree(operator=Operator.XOR, parent=node, children=node.children[1:])
+            for child in redo.children:
+                child.parent = redo
+            node.children = [node.children[0], redo]
         if node.operator == Operator.LOOP and len(node.children) < 3:
             third_children = ProcessTree(operator=None, label=None)
             third_children.parent = node
-- 
2.43.0


From 55ece5f3be71421b383206cecad51b2453e554ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 017/151] fix: structural language equality of interleaving
 operators

---
 pm4py/objects/process_tree/utils/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index 66b0193..137107b 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -352,7 +352,8 @@ def structurally_language_equal(tree1, tree2):
                     if not structurally_language_equal(tree1.children[i], tree2.children[i]):
                         return False
                 return True
-            elif tree1.operator in [pt_op.Operator.PARALLEL, pt_op.Operator.XOR, pt_op.Operator.OR]:
+            elif tree1.operator in [pt_op.Operator.PARALLEL, pt_op.Operator.XOR, pt_op.Operator.OR,
+                                    pt_op.Operator.INTERLEAVING]:
                 matches = list(range(len(tree1.children)))
                 for i in range(len(tree1.children)):
                     mm = [m for m in matches]
-- 
2.43.0


From f579aacfffd421fe31af5626aaa2854c5606a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 018/151] fix: POWL parser keeps the edges of nodes whose text
 is the beginning of another node

---
 pm4py/objects/powl/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/powl/parser.py b/pm4py/objects/powl/parser.py
index 7ad3e34..016499a 100644
--- a/pm4py/objects/powl/parser.py
+++ b/pm4py/objects/powl/parser.py
@@ -71,7 +71,8 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
 
-            pattern = '(' + '|'.join(map(re.escape, list(nodes_dict))) + ')'
+            # the longest nodes first: a node can be the beginning of another one
+            pattern = '(' + '|'.join(map(re.escape, sorted(nodes_dict, key=len, reverse=True))) + ')'
 
             PO = StrictPartialOrder(nodes=nodes)
 
-- 
2.43.0


From 830ac7e23166d2648da9845219b61a426fe80736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 019/151] fix: process tree play-out handles n-ary loops, OR
 and length bounds, and leaves the tree unchanged

---
 .../process_tree/variants/extensive.py        |  6 ++++--
 .../process_tree/variants/topbottom.py        | 13 +++++++-----
 pm4py/objects/process_tree/semantics.py       | 20 +++++++++++++------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
index a47df0b..9a6fcdc 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
@@ -221,7 +221,8 @@ def get_playout_loop(node, playout_dictio, min_trace_length, max_trace_length, m
     mar = max_rem_dict[node]
     final_traces = set()
     do_traces = sorted(list(playout_dictio[node.children[0]][TRACES]), key=lambda x: len(x))
-    redo_traces = sorted(list(playout_dictio[node.children[1]][TRACES]), key=lambda x: len(x))
+    redo_traces = set().union(*(playout_dictio[x][TRACES] for x in node.children[1:]))
+    redo_traces = sorted(list(redo_traces), key=lambda x: len(x))
     min_do_trace = min(len(x) for x in do_traces) if do_traces else 0
     to_visit = list((x, 0, 0) for x in do_traces)
     closed = set()
@@ -327,7 +328,8 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     for i in range(len(bottomup)):
         get_playout(bottomup[i], playout_dictio, min_trace_length, max_trace_length, max_loop_occ, min_rem_dict,
                     max_rem_dict, max_limit_num_traces)
-    tree_playout_traces = playout_dictio[tree][TRACES]
+    # the bounds used inside the tree are only necessary conditions: apply the requested ones to the complete traces
+    tree_playout_traces = {x for x in playout_dictio[tree][TRACES] if min_trace_length <= len(x) <= max_trace_length}
 
     if return_set_strings:
         return tree_playout_traces
diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..53a9030 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,8 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
         ret = []
-        for child in tree.children:
+        for child in random.sample(tree.children, len(tree.children)):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
@@ -153,14 +152,18 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(tree.children[0])
             r = random.random()
             if r <= 0.5:
-                ret = ret + get_ex_seq(tree.children[1])
+                ret = ret + get_ex_seq(random.choice(tree.children[1:]))
                 cont = True
         return ret
-    elif tree.operator is Operator.PARALLEL:
+    elif tree.operator is Operator.PARALLEL or tree.operator is Operator.OR:
+        children = tree.children
+        if tree.operator is Operator.OR:
+            # a non-empty subset of the children is executed
+            children = random.sample(children, random.randint(1, len(children)))
         ret = []
         children_traces = []
         list_choices = []
-        for index, child in enumerate(tree.children):
+        for index, child in enumerate(children):
             trace = get_ex_seq(child)
             children_traces.append(trace)
             list_choices += [index] * len(trace)
diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 3bfa691..35b427f 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -35,6 +35,13 @@ class GenerationTree(ProcessTree):
             tree.children[i] = GenerationTree(tree.children[i])
             tree.children[i].parent = self
             i = i + 1
+        if tree.operator is pt_opt.Operator.LOOP:
+            # the exit of the loop (the children after the first one are the redo parts)
+            if len(tree.children) == 1:
+                tree.children.append(GenerationTree(ProcessTree(parent=self)))
+            tree.children.append(GenerationTree(ProcessTree(parent=self)))
+            for child in tree.children:
+                child.parent = self
         ProcessTree.__init__(self, operator=tree.operator, parent=tree.parent, children=tree.children, label=tree.label)
 
     def __eq__(self, other):
@@ -155,9 +162,6 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
     open.add(vertex)
     execution_sequence.append((vertex, pt_st.State.OPEN))
     if len(vertex.children) > 0:
-        if vertex.operator is pt_opt.Operator.LOOP:
-            while len(vertex.children) < 3:
-                vertex.children.append(ProcessTree(parent=vertex))
         if vertex.operator is pt_opt.Operator.SEQUENCE or vertex.operator is pt_opt.Operator.LOOP:
             c = vertex.children[0]
             enabled.add(c)
@@ -175,10 +179,14 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
             execution_sequence.append((c, pt_st.State.ENABLED))
         elif vertex.operator is pt_opt.Operator.OR:
             some_children = [c for c in vertex.children if random.random() < 0.5]
+            if not some_children:
+                # at least one child has to be executed
+                some_children = [random.choice(vertex.children)]
             enabled |= set(some_children)
+            # the children that are not executed shall not prevent the closure of the node
+            closed |= set(vertex.children)
             for x in some_children:
-                if x in closed:
-                    closed.remove(x)
+                closed.remove(x)
             map(lambda c: execution_sequence.append((c, pt_st.State.ENABLED)), some_children)
         elif vertex.operator is pt_opt.Operator.INTERLEAVING:
             random.shuffle(vertex.children)
@@ -239,7 +247,7 @@ def process_closed(closed_node, enabled, open, closed, execution_sequence):
             if vertex.operator is pt_opt.Operator.SEQUENCE or vertex.operator is pt_opt.Operator.INTERLEAVING:
                 enable = vertex.children[vertex.children.index(closed_node) + 1]
             elif vertex.operator is pt_opt.Operator.LOOP:
-                enable = vertex.children[random.randint(1, 2)] if vertex.children.index(closed_node) == 0 else \
+                enable = random.choice(vertex.children[1:]) if vertex.children.index(closed_node) == 0 else \
                     vertex.children[0]
             if enable is not None:
                 enabled.add(enable)
-- 
2.43.0


From 579a2490f4f76835909ad3f324777c8c1047c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 020/151] fix: DFG files keep isolated activities and spaces in
 names, ProM5-friendly PNML files can be read, BPMN auto-layout accepts
 self-loops

---
 pm4py/objects/bpmn/layout/variants/graphviz.py | 18 ++++++++++--------
 pm4py/objects/dfg/exporter/variants/classic.py |  3 ++-
 pm4py/objects/dfg/importer/variants/classic.py |  3 ++-
 .../petri_net/importer/variants/pnml.py        |  2 +-
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pm4py/objects/bpmn/layout/variants/graphviz.py b/pm4py/objects/bpmn/layout/variants/graphviz.py
index c889a3f..ca0380a 100644
--- a/pm4py/objects/bpmn/layout/variants/graphviz.py
+++ b/pm4py/objects/bpmn/layout/variants/graphviz.py
@@ -195,6 +195,8 @@ def apply(bpmn_graph, parameters=None):
 
         diff_x = abs(x_trg - x_src)
         diff_y = abs(y_src - y_trg)
+        # the source and the target coincide for self-loops
+        diff_sum = max(1, diff_x + diff_y)
 
         if not (x_src, y_src) in outgoing_edges:
             outgoing_edges[(x_src, y_src)] = {}
@@ -206,18 +208,18 @@ def apply(bpmn_graph, parameters=None):
                                                          EndpointDirection.TOP: 0.0, EndpointDirection.BOTTOM: 0.0}
 
         if x_trg > x_src:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / diff_sum
 
         if y_src > y_trg:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / diff_sum
 
     # normalization
     outgoing_edges0 = deepcopy(outgoing_edges)
diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index e7bf5f0..47181c3 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -60,7 +60,8 @@ def export_line_by_line(dfg, parameters=None):
         raise Exception(
             "error: impossible to determine automatically the end activities from the DFG. Please specify them manually through the END_ACTIVITIES parameter")
 
-    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)))
+    # also the activities that are not part of any path (e.g., of the cases with a single event) are needed
+    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)).union(start_activities).union(end_activities))
 
     yield "%d\n" % (len(activities))
     for act in activities:
diff --git a/pm4py/objects/dfg/importer/variants/classic.py b/pm4py/objects/dfg/importer/variants/classic.py
index e55de1a..0b5e66c 100644
--- a/pm4py/objects/dfg/importer/variants/classic.py
+++ b/pm4py/objects/dfg/importer/variants/classic.py
@@ -54,7 +54,8 @@ def import_dfg_from_rows(rows, parameters=None):
     num_activities = int(rows[0])
     i = 1
     while i <= num_activities:
-        activities.append(rows[i].strip())
+        # remove only the end of the line: the spaces may be part of the name of the activity
+        activities.append(rows[i].rstrip("\r\n"))
         i = i + 1
 
     num_sa = int(rows[i])
diff --git a/pm4py/objects/petri_net/importer/variants/pnml.py b/pm4py/objects/petri_net/importer/variants/pnml.py
index 67d2e9e..156da2d 100644
--- a/pm4py/objects/petri_net/importer/variants/pnml.py
+++ b/pm4py/objects/petri_net/importer/variants/pnml.py
@@ -220,7 +220,7 @@ def import_net_from_xml_object(root, parameters=None):
                         tool = child2.get("tool")
                         if "ProM" in tool:
                             activity = child2.get("activity")
-                            if "invisible" in activity:
+                            if activity is not None and "invisible" in activity:
                                 trans_visible = False
                         elif "StochasticPetriNet" in tool:
                             distribution_type = None
-- 
2.43.0


From 67a22b381546534321cf1664347c1bd9c471e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 021/151] fix: eventually-follows graph of event logs with a
 custom timestamp key

---
 pm4py/statistics/eventually_follows/log/get.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/statistics/eventually_follows/log/get.py b/pm4py/statistics/eventually_follows/log/get.py
index 918738b..f5cf7d3 100644
--- a/pm4py/statistics/eventually_follows/log/get.py
+++ b/pm4py/statistics/eventually_follows/log/get.py
@@ -39,8 +39,8 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    # if not specified, the start timestamp is the (specified) timestamp
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     keep_first_following = exec_utils.get_param_value(Parameters.KEEP_FIRST_FOLLOWING, parameters, False)
 
     ret_dict = {}
-- 
2.43.0


From 78c05741f50bbe54c249bec313e4b9157f7fc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 022/151] fix: the start timestamp attribute defaults to the
 timestamp attribute given by the user

---
 pm4py/algo/conformance/temporal_profile/variants/log.py       | 2 +-
 pm4py/algo/discovery/batches/variants/log.py                  | 4 ++--
 pm4py/algo/discovery/dfg/variants/performance.py              | 4 ++--
 pm4py/algo/discovery/temporal_profile/variants/log.py         | 2 +-
 pm4py/statistics/concurrent_activities/log/get.py             | 2 +-
 pm4py/statistics/overlap/cases/log/get.py                     | 2 +-
 pm4py/statistics/overlap/cases/pandas/get.py                  | 2 +-
 pm4py/statistics/overlap/interval_events/log/get.py           | 4 ++--
 pm4py/statistics/overlap/interval_events/pandas/get.py        | 4 ++--
 pm4py/statistics/service_time/log/get.py                      | 4 ++--
 pm4py/statistics/service_time/pandas/get.py                   | 4 ++--
 pm4py/statistics/traces/cycle_time/log/get.py                 | 2 +-
 pm4py/streaming/algo/conformance/temporal/variants/classic.py | 2 +-
 13 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..9165d2e 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -90,7 +90,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/batches/variants/log.py b/pm4py/algo/discovery/batches/variants/log.py
index 84bb801..55f1deb 100644
--- a/pm4py/algo/discovery/batches/variants/log.py
+++ b/pm4py/algo/discovery/batches/variants/log.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     events = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_STREAM)
diff --git a/pm4py/algo/discovery/dfg/variants/performance.py b/pm4py/algo/discovery/dfg/variants/performance.py
index c25981a..d85d317 100644
--- a/pm4py/algo/discovery/dfg/variants/performance.py
+++ b/pm4py/algo/discovery/dfg/variants/performance.py
@@ -73,9 +73,9 @@ def performance(log: Union[EventLog, EventStream], parameters: Optional[Dict[Uni
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_util.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_util.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE, parameters, "mean")
 
     business_hours = exec_utils.get_param_value(Parameters.BUSINESS_HOURS, parameters, False)
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..477eebb 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -80,7 +80,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     diff_time_recordings = {}
 
diff --git a/pm4py/statistics/concurrent_activities/log/get.py b/pm4py/statistics/concurrent_activities/log/get.py
index b1b2386..86ba72d 100644
--- a/pm4py/statistics/concurrent_activities/log/get.py
+++ b/pm4py/statistics/concurrent_activities/log/get.py
@@ -61,7 +61,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/overlap/cases/log/get.py b/pm4py/statistics/overlap/cases/log/get.py
index b6559d1..58115e8 100644
--- a/pm4py/statistics/overlap/cases/log/get.py
+++ b/pm4py/statistics/overlap/cases/log/get.py
@@ -54,7 +54,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/cases/pandas/get.py b/pm4py/statistics/overlap/cases/pandas/get.py
index 1546bc5..165801a 100644
--- a/pm4py/statistics/overlap/cases/pandas/get.py
+++ b/pm4py/statistics/overlap/cases/pandas/get.py
@@ -53,7 +53,7 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     columns = list({timestamp_key, start_timestamp_key, case_id_key})
diff --git a/pm4py/statistics/overlap/interval_events/log/get.py b/pm4py/statistics/overlap/interval_events/log/get.py
index 1c7ddad..92e09e8 100644
--- a/pm4py/statistics/overlap/interval_events/log/get.py
+++ b/pm4py/statistics/overlap/interval_events/log/get.py
@@ -52,10 +52,10 @@ def apply(log: Union[EventLog, EventStream], parameters: Optional[Dict[Union[str
         parameters = {}
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index cb42670..bc09792 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -51,10 +51,10 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     df = df[list({start_timestamp_key, timestamp_key})].to_dict('records')
     points = []
diff --git a/pm4py/statistics/service_time/log/get.py b/pm4py/statistics/service_time/log/get.py
index f3781a0..177a4ba 100644
--- a/pm4py/statistics/service_time/log/get.py
+++ b/pm4py/statistics/service_time/log/get.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..9f4637a 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -75,10 +75,10 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/traces/cycle_time/log/get.py b/pm4py/statistics/traces/cycle_time/log/get.py
index db3e57f..55b0ec3 100644
--- a/pm4py/statistics/traces/cycle_time/log/get.py
+++ b/pm4py/statistics/traces/cycle_time/log/get.py
@@ -59,8 +59,8 @@ def apply(log_or_trace: Union[Trace, EventLog], parameters: Optional[Dict[Union[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     if type(log_or_trace) is Trace:
         log = EventLog()
diff --git a/pm4py/streaming/algo/conformance/temporal/variants/classic.py b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
index ff29c90..975604f 100644
--- a/pm4py/streaming/algo/conformance/temporal/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
@@ -72,7 +72,7 @@ class TemporalProfileStreamingConformance(StreamingAlgorithm):
         self.timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                         xes_constants.DEFAULT_TIMESTAMP_KEY)
         self.start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                              xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                              self.timestamp_key)
         self.case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         self.zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
         parameters_gen = copy(parameters)
-- 
2.43.0


From 1e8bb55d70472ae1aca0f7e2c5f765fa028dc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 023/151] fix: case overlap counts cases with equal boundaries,
 cycle time includes the last production interval, concurrent activities of
 dataframes add up both orders

---
 pm4py/statistics/concurrent_activities/pandas/get.py | 2 +-
 pm4py/statistics/overlap/utils/compute.py            | 5 +++--
 pm4py/statistics/traces/cycle_time/util/compute.py   | 3 +++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pm4py/statistics/concurrent_activities/pandas/get.py b/pm4py/statistics/concurrent_activities/pandas/get.py
index f464d3f..1c795db 100644
--- a/pm4py/statistics/concurrent_activities/pandas/get.py
+++ b/pm4py/statistics/concurrent_activities/pandas/get.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     for el in ret_dict0:
         # avoid getting two entries for the same set of concurrent activities
         el2 = tuple(sorted(el))
-        ret_dict[el2] = int(ret_dict0[el])
+        ret_dict[el2] = ret_dict.get(el2, 0) + int(ret_dict0[el])
 
     return ret_dict
 
diff --git a/pm4py/statistics/overlap/utils/compute.py b/pm4py/statistics/overlap/utils/compute.py
index 37d57b2..61d0d9a 100644
--- a/pm4py/statistics/overlap/utils/compute.py
+++ b/pm4py/statistics/overlap/utils/compute.py
@@ -51,8 +51,9 @@ def apply(points: List[Tuple[float, float]], parameters: Optional[Dict[Union[str
     sorted_points = sorted(points)
     tree = IntervalTree()
 
-    for p in sorted_points:
-        tree.add(Interval(p[0], p[1]))
+    for i, p in enumerate(sorted_points):
+        # the index keeps points with the same boundaries distinct (the tree is a set of intervals)
+        tree.add(Interval(p[0], p[1], i))
 
     overlap = []
     for p in points:
diff --git a/pm4py/statistics/traces/cycle_time/util/compute.py b/pm4py/statistics/traces/cycle_time/util/compute.py
index 22c3156..f3801e8 100644
--- a/pm4py/statistics/traces/cycle_time/util/compute.py
+++ b/pm4py/statistics/traces/cycle_time/util/compute.py
@@ -62,4 +62,7 @@ def cycle_time(events: List[Tuple[float, float]], num_instances: int) -> float:
 
         et = max(et, this_et)
 
+    # consider also the last production interval
+    production_time += (et - st)
+
     return production_time / num_instances
-- 
2.43.0


From adf82150224668522b2082649dbb827b64ecbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 024/151] fix: variants of dataframes with interleaved rows,
 business-hours performance and concurrent events without pairs

---
 .../dfg/adapters/pandas/df_statistics.py        | 17 +++++++++++------
 pm4py/objects/log/util/pandas_numpy_variants.py |  7 ++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..a950e1a 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -123,8 +123,10 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         if business_hours:
             if business_hours_slot is None:
                 business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-            df_successive_rows[constants.DEFAULT_FLOW_TIME] = df_successive_rows.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+            # (a list is used because apply does not return a single column if there are no rows)
+            df_successive_rows[constants.DEFAULT_FLOW_TIME] = [
+                soj_time_business_hours_diff(x, y, business_hours_slot, workcalendar) for x, y in
+                zip(df_successive_rows[timestamp_key], df_successive_rows[start_timestamp_key + '_2'])]
         else:
             difference = df_successive_rows[start_timestamp_key + '_2'] - df_successive_rows[timestamp_key]
             df_successive_rows[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(difference)
@@ -243,8 +245,10 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
     if business_hours:
         if business_hours_slot is None:
             business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-        df[constants.DEFAULT_FLOW_TIME] = df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+        # (a list is used because apply does not return a single column if there are no rows)
+        df[constants.DEFAULT_FLOW_TIME] = [
+            soj_time_business_hours_diff(x, y, business_hours_slot, workcalendar) for x, y in
+            zip(df[timestamp_key], df[start_timestamp_key + '_2'])]
     else:
         df[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(df[start_timestamp_key + "_2"] - df[timestamp_key])
 
@@ -315,8 +319,9 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     df = df[df[constants.DEFAULT_INDEX_KEY] < df[constants.DEFAULT_INDEX_KEY + "_2"]]
     df[max_start_column] = df[[start_timestamp_key, start_timestamp_key + '_2']].max(axis=1)
     df[min_complete_column] = df[[timestamp_key, timestamp_key + '_2']].min(axis=1)
-    df[max_start_column] = df[max_start_column].apply(lambda x: x.timestamp())
-    df[min_complete_column] = df[min_complete_column].apply(lambda x: x.timestamp())
+    # (floats also if there are no rows)
+    df[max_start_column] = df[max_start_column].apply(lambda x: x.timestamp()) if len(df) > 0 else 0.0
+    df[min_complete_column] = df[min_complete_column].apply(lambda x: x.timestamp()) if len(df) > 0 else 0.0
     df[diff_maxs_minc] = df[min_complete_column] - df[max_start_column]
     if strict:
         df = df[df[diff_maxs_minc] > 0]
diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..182dc6e 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
@@ -87,6 +87,11 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
         cases = dataframe[case_id_key].to_numpy()
         activities = dataframe[activity_key].to_numpy()
 
+        # the rows of a case need to be contiguous (keeping their order)
+        order = np.argsort(cases, kind="stable")
+        cases = cases[order]
+        activities = activities[order]
+
         c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
 
         for i in range(len(c_ind)):
-- 
2.43.0


From 7e8bbe0ccd75d00f883c7aba330896ca20ae0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 025/151] fix: minimum self-distance witnesses and per-case
 rework honour custom attribute names, dataframe case attribute values count
 cases

---
 pm4py/statistics/rework/cases/pandas/get.py | 2 +-
 pm4py/stats.py                              | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/statistics/rework/cases/pandas/get.py b/pm4py/statistics/rework/cases/pandas/get.py
index 01bee63..c19acce 100644
--- a/pm4py/statistics/rework/cases/pandas/get.py
+++ b/pm4py/statistics/rework/cases/pandas/get.py
@@ -57,6 +57,6 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     grouped_df = df.groupby(case_id_key)[activity_key].agg(["count", "nunique"]).reset_index().to_dict("records")
     rework_cases = {}
     for el in grouped_df:
-        rework_cases[el["case:concept:name"]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
+        rework_cases[el[case_id_key]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
 
     return rework_cases
diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..7c8086e 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -193,6 +193,8 @@ def get_trace_attribute_values(log: Union[EventLog, pd.DataFrame], attribute: st
         if attribute not in log and constants.CASE_ATTRIBUTE_PREFIX + attribute in log:
             # if "attribute" does not exist as column, but "case:attribute" exists, then use that
             attribute = constants.CASE_ATTRIBUTE_PREFIX + attribute
+        # the values of a case attribute are repeated for each event of the case
+        parameters["keep_once_per_case"] = True
         ret = get.get_attribute_values(log, attribute, parameters=parameters)
         return ret
     else:
@@ -468,7 +470,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=properties), parameters=properties)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From 9bb415eb4e110a7b350bc348d8e3c6f746761b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 026/151] fix: escape activity names in the regular expressions
 of the trace segment filter

---
 pm4py/algo/filtering/common/traces/infix_to_regex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/common/traces/infix_to_regex.py b/pm4py/algo/filtering/common/traces/infix_to_regex.py
index f0a53ee..ada9577 100644
--- a/pm4py/algo/filtering/common/traces/infix_to_regex.py
+++ b/pm4py/algo/filtering/common/traces/infix_to_regex.py
@@ -14,6 +14,9 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import re
+
+
 def translate_infix_to_regex(infix):
     regex = "^"
     for i, act in enumerate(infix):
@@ -25,9 +28,9 @@ def translate_infix_to_regex(infix):
                 regex = f"{regex}([^,]*,)*"
         else:
             if is_last_activity:
-                regex = f"{regex}{act}"
+                regex = f"{regex}{re.escape(act)}"
             else:
-                regex = f"{regex}{act},"
+                regex = f"{regex}{re.escape(act)},"
 
     regex = f"{regex}$"
     return regex
-- 
2.43.0


From e51681965039df6962a9f27909fe55d5061003a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 027/151] fix: LTL checker: match the right events in the log
 and pandas filters

---
 pm4py/algo/filtering/log/ltl/ltl_checker.py   |  4 +--
 .../algo/filtering/pandas/ltl/ltl_checker.py  | 32 +++++--------------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/pm4py/algo/filtering/log/ltl/ltl_checker.py b/pm4py/algo/filtering/log/ltl/ltl_checker.py
index 7aec690..13f7a53 100644
--- a/pm4py/algo/filtering/log/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/log/ltl/ltl_checker.py
@@ -107,8 +107,8 @@ def eventually_follows(log: EventLog, attribute_values: List[str], parameters: O
             if ok:
                 if enable_timestamp and timestamp_diff_boundaries:
                     for i in range(len(c)-1):
-                        timest_i = trace[i][timestamp_key].timestamp()
-                        timest_j = trace[i+1][timestamp_key].timestamp()
+                        timest_i = trace[c[i]][timestamp_key].timestamp()
+                        timest_j = trace[c[i+1]][timestamp_key].timestamp()
                         if timest_j - timest_i < timestamp_diff_boundaries[i][0] or timest_j - timest_i > timestamp_diff_boundaries[i][1]:
                             ok = False
                             break
diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index b73fb86..5bcfd9e 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -81,15 +81,13 @@ def eventually_follows(df0: pd.DataFrame, attribute_values: List[str], parameter
     df = df[colset]
     df = pandas_utils.insert_index(df)
 
-    df_a = [df[df[attribute_key] == attribute_value].copy() for attribute_value in attribute_values]
+    df_a = [df[df[attribute_key] == attribute_value].rename(columns={c: c + "_%d" % i for c in df.columns if c != case_id_glue})
+            for i, attribute_value in enumerate(attribute_values)]
 
-    df_join = df_a[0].merge(df_a[1], on=case_id_glue, suffixes=('_0', "_1")).dropna()
-    df_join[constants.DEFAULT_INDEX_KEY] = df_join[constants.DEFAULT_INDEX_KEY + "_0"]
-    df_join["@@diffindex0"] = df_join[constants.DEFAULT_INDEX_KEY + "_1"] - df_join[constants.DEFAULT_INDEX_KEY + "_0"]
-    df_join = df_join[df_join["@@diffindex0"] > 0]
+    df_join = df_a[0].dropna()
 
-    for i in range(2, len(df_a)):
-        df_join = df_join.merge(df_a[i], on=case_id_glue, suffixes=('', "_%d" % i)).dropna()
+    for i in range(1, len(df_a)):
+        df_join = df_join.merge(df_a[i], on=case_id_glue).dropna()
         df_join["@@diffindex%d" % (i - 1)] = df_join[constants.DEFAULT_INDEX_KEY + "_%d" % i] - df_join[
             constants.DEFAULT_INDEX_KEY + "_%d" % (i - 1)]
         df_join = df_join[df_join["@@diffindex%d" % (i - 1)] > 0]
@@ -148,19 +146,8 @@ def A_next_B_next_C(df0: pd.DataFrame, A: str, B: str, C: str, parameters: Optio
     df = df0.copy()
     df = df[[case_id_glue, attribute_key]]
     df = pandas_utils.insert_index(df)
-    df_A = df[df[attribute_key] == A].copy()
-    df_B = df[df[attribute_key] == B].copy()
-    df_C = df[df[attribute_key] == C].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-    df_C["@@conceptname"] = df_C[case_id_glue]
-    df_C = df_C.groupby(case_id_glue).last().set_index("@@conceptname")
-
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna().join(df_C, on=case_id_glue, rsuffix="_3").dropna()
-    df_join["@@diffindex"] = df_join[constants.DEFAULT_INDEX_KEY + "_2"] - df_join[constants.DEFAULT_INDEX_KEY]
-    df_join["@@diffindex2"] = df_join[constants.DEFAULT_INDEX_KEY + "_3"] - df_join[constants.DEFAULT_INDEX_KEY + "_2"]
-    df_join = df_join[df_join["@@diffindex"] == 1]
-    df_join = df_join[df_join["@@diffindex2"] == 1]
+    following = df.groupby(case_id_glue)[attribute_key]
+    df_join = df[(df[attribute_key] == A) & (following.shift(-1) == B) & (following.shift(-2) == C)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = df_join.set_index(case_id_glue).index
@@ -211,10 +198,7 @@ def four_eyes_principle(df0: pd.DataFrame, A: str, B: str, parameters: Optional[
 
     df_A = df[df[attribute_key] == A].copy()
     df_B = df[df[attribute_key] == B].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna()
+    df_join = df_A.merge(df_B, on=case_id_glue, suffixes=("", "_2")).dropna()
     df_join_pos = df_join[df_join[resource_key] == df_join[resource_key + "_2"]]
     df_join_neg = df_join[df_join[resource_key] != df_join[resource_key + "_2"]]
 
-- 
2.43.0


From c719fcd157c95f78fd706623abc9837c02afae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 028/151] fix: starts with / ends with filters compare
 activities, not joined strings

---
 .../filtering/pandas/ends_with/ends_with_filter.py   | 12 +++---------
 .../pandas/starts_with/starts_with_filter.py         | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
index a959e06..5ab35aa 100644
--- a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
+++ b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
@@ -63,16 +63,10 @@ def apply(df: pd.DataFrame, admitted_suffixes: List[str], parameters: Optional[D
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    admitted_suffixes = list(admitted_suffixes)
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_suffixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_suffixes]
-    admitted_suffixes = tuple(admitted_suffixes)
+    variants = variants_df["variant"].apply(lambda x: tuple(x.split(constants.DEFAULT_VARIANT_SEP)) if isinstance(x, str) else tuple(x))
+    admitted_suffixes = [tuple(x.split(constants.DEFAULT_VARIANT_SEP)) if isinstance(x, str) else tuple(x) for x in admitted_suffixes]
 
-    variants_df = variants_df[variants_df["variant"].str.endswith(admitted_suffixes)]
+    variants_df = variants_df[variants.apply(lambda variant: any(variant[max(len(variant) - len(x), 0):] == x for x in admitted_suffixes)).astype(bool)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
diff --git a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
index 880aeff..3699b03 100644
--- a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
+++ b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
@@ -63,16 +63,10 @@ def apply(df: pd.DataFrame, admitted_prefixes: List[str], parameters: Optional[D
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    admitted_prefixes = list(admitted_prefixes)
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_prefixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_prefixes]
-    admitted_prefixes = tuple(admitted_prefixes)
+    variants = variants_df["variant"].apply(lambda x: tuple(x.split(constants.DEFAULT_VARIANT_SEP)) if isinstance(x, str) else tuple(x))
+    admitted_prefixes = [tuple(x.split(constants.DEFAULT_VARIANT_SEP)) if isinstance(x, str) else tuple(x) for x in admitted_prefixes]
 
-    variants_df = variants_df[variants_df["variant"].str.startswith(admitted_prefixes)]
+    variants_df = variants_df[variants.apply(lambda variant: any(variant[:len(x)] == x for x in admitted_prefixes)).astype(bool)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From 21da6a1a89871331efcb30f257d41f9715af7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 029/151] fix: traces intersecting and paths performance
 filters of dataframes

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py        | 1 +
 .../algo/filtering/pandas/timestamp/timestamp_filter.py  | 9 ++-------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..e988275 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -130,6 +130,7 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
     stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
diff --git a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
index 40c4e81..b4cf11c 100644
--- a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
@@ -108,13 +108,8 @@ def filter_traces_intersecting(df: pd.DataFrame, dt1: Union[str, datetime.dateti
     last = grouped_df.last()
     last.columns = [str(col) + '_2' for col in last.columns]
     stacked = pandas_utils.concat([first, last], axis=1)
-    stacked1 = stacked[stacked[timestamp_key] > dt1]
-    stacked1 = stacked1[stacked1[timestamp_key] < dt2]
-    stacked2 = stacked[stacked[timestamp_key + "_2"] > dt1]
-    stacked2 = stacked2[stacked2[timestamp_key + "_2"] < dt2]
-    stacked3 = stacked[stacked[timestamp_key] < dt1]
-    stacked3 = stacked3[stacked3[timestamp_key + "_2"] > dt2]
-    stacked = pandas_utils.concat([stacked1, stacked2, stacked3], axis=0)
+    stacked = stacked[stacked[timestamp_key] <= dt2]
+    stacked = stacked[stacked[timestamp_key + "_2"] >= dt1]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked.set_index(case_id_glue).index
     ret = df[i1.isin(i2)]
-- 
2.43.0


From 4b7f9f140c8f857a85e66dc8a0a75b15140c47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 030/151] fix: event-level filters: missing attributes, shared
 case id and ordering

---
 pm4py/algo/filtering/log/attributes/attributes_filter.py    | 4 ++--
 pm4py/algo/filtering/log/between/between_filter.py          | 3 +++
 pm4py/algo/filtering/pandas/attributes/attributes_filter.py | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index d3916ee..f0d214a 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -198,11 +198,11 @@ def apply_events(log: EventLog, values: List[str], parameters: Optional[Dict[Uni
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if positive:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key in x and x[attribute_key] in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
     else:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] not in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key not in x or x[attribute_key] not in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
 
diff --git a/pm4py/algo/filtering/log/between/between_filter.py b/pm4py/algo/filtering/log/between/between_filter.py
index 046a6ae..4d77813 100644
--- a/pm4py/algo/filtering/log/between/between_filter.py
+++ b/pm4py/algo/filtering/log/between/between_filter.py
@@ -67,6 +67,9 @@ def apply(log: EventLog, act1: Union[str, List[str]], act2: Union[str, List[str]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
+    if case_id_key.startswith(constants.CASE_ATTRIBUTE_PREFIX):
+        # name of the attribute at the trace level
+        case_id_key = case_id_key[len(constants.CASE_ATTRIBUTE_PREFIX):]
     subcase_concat_str = exec_utils.get_param_value(Parameters.SUBCASE_CONCAT_STR, parameters, "##@@")
 
     act1_comparison = lambda x: (x == act1) if type(act1) is str else (x in act1)
diff --git a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
index ad24dfe..a5b6337 100644
--- a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
@@ -305,7 +305,7 @@ def filter_df_keeping_spno_activities(df: pd.DataFrame, activity_key: str = "con
         ret = df
 
     ret.attrs = copy(df.attrs) if hasattr(df, 'attrs') else {}
-    return df
+    return ret
 
 
 def filter_df_relative_occurrence_event_attribute(df: pd.DataFrame, min_relative_stake: float, parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
-- 
2.43.0


From cd09ee5f350f651219a2d050210efc676c7bd239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 031/151] fix: between and activity split filters on dataframes
 with interleaved cases

---
 .../activity_split/activity_split_filter.py   | 27 ++++++----------
 .../pandas/between/between_filter.py          | 32 ++++++++-----------
 2 files changed, 23 insertions(+), 36 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
index 9cbd8df..f624045 100644
--- a/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
+++ b/pm4py/algo/filtering/pandas/activity_split/activity_split_filter.py
@@ -17,7 +17,6 @@
 from enum import Enum
 from typing import Optional, Dict, Any, Union, List
 
-import numpy as np
 import pandas as pd
 
 from pm4py.util import exec_utils, constants, xes_constants
@@ -95,30 +94,24 @@ def apply(df: pd.DataFrame, activity: Union[str, List[str]],
     act_equal = lambda x: x == activity if type(activity) is str else x in activity
 
     df = df.copy()
-    cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
-    c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
-    res = []
 
-    i = 0
-    while i < len(c_unq):
-        rel_count = 0
-        this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
+    res = [None] * len(df)
 
-        j = 0
-        while j < c_counts[i]:
-            if act_equal(activities[c_ind[i] + j]):
+    for case, positions in df.groupby(case_id_key, sort=False).indices.items():
+        rel_count = 0
+        this_case = str(case) + subcase_concat_str + str(rel_count)
+        for pos in positions:
+            if act_equal(activities[pos]):
                 rel_count += 1
-                next_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
+                next_case = str(case) + subcase_concat_str + str(rel_count)
                 if cut_mode == "this":
-                    res.append(next_case)
+                    res[pos] = next_case
                 else:
-                    res.append(this_case)
+                    res[pos] = this_case
                 this_case = next_case
             else:
-                res.append(this_case)
-            j = j + 1
-        i = i + 1
+                res[pos] = this_case
 
     df[case_id_key] = res
 
diff --git a/pm4py/algo/filtering/pandas/between/between_filter.py b/pm4py/algo/filtering/pandas/between/between_filter.py
index 9ebe41c..eb9d62b 100644
--- a/pm4py/algo/filtering/pandas/between/between_filter.py
+++ b/pm4py/algo/filtering/pandas/between/between_filter.py
@@ -17,7 +17,6 @@
 from enum import Enum
 from typing import Optional, Dict, Any, Union, List
 
-import numpy as np
 import pandas as pd
 
 from pm4py.util import exec_utils, constants, xes_constants
@@ -65,23 +64,17 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
     act2_comparison = lambda x: (x == act2) if type(act2) is str else (x in act2)
 
     df = df.copy()
-    cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
-    c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
-    res = [np.nan for i in range(len(df))]
 
-    i = 0
-    while i < len(c_unq):
+    rows = []
+    for case, positions in df.groupby(case_id_key, sort=False).indices.items():
         rel_count = 0
         occ_A = -1
-        j = 0
-        while j < c_counts[i]:
-            if act2_comparison(activities[c_ind[i] + j]) and occ_A >= 0:
-                z = occ_A
-                this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
-                while z <= j:
-                    res[c_ind[i] + z] = this_case
-                    z = z + 1
+        for j, pos in enumerate(positions):
+            if act2_comparison(activities[pos]) and occ_A >= 0:
+                this_case = str(case) + subcase_concat_str + str(rel_count)
+                rows.extend((z, this_case) for z in positions[occ_A:j + 1])
+
                 rel_count += 1
                 if act1 != act2:
                     # if the between filter is applied between two activities A and B, with A different from B,
@@ -89,13 +82,14 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
                     occ_A = -1
                 else:
                     # otherwise, if A = B, then it continues outputting the events to a new subcase
+                    # (the event belongs to both subcases)
                     occ_A = j
-            elif act1_comparison(activities[c_ind[i] + j]) and occ_A == -1:
+            elif act1_comparison(activities[pos]) and occ_A == -1:
                 occ_A = j
-            j = j + 1
-        i = i + 1
 
-    df[case_id_key] = res
-    df = df.dropna(subset=[case_id_key])
+    rows.sort(key=lambda x: x[0])
+
+    df = df.iloc[[x[0] for x in rows]].copy()
+    df[case_id_key] = [x[1] for x in rows]
 
     return df
-- 
2.43.0


From 588ef4735d48c997e600a5fb6703a383c6930d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 032/151] fix: case grouping filters keep the values of the
 first/last event

---
 .../consecutive_act_case_grouping_filter.py           | 10 +++-------
 .../timestamp_case_grouping_filter.py                 | 11 ++++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
index 4818641..da44993 100644
--- a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
@@ -57,17 +57,13 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     filter_type = exec_utils.get_param_value(Parameters.FILTER_TYPE, parameters, "first")
 
     dataframe = log_converter.apply(log_obj, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
-    dataframe["@@extra1"] = dataframe[case_id_key] + dataframe[activity_key]
-    utility_df = (dataframe["@@extra1"] != dataframe["@@extra1"].shift())
-    utility_df = utility_df.fillna(False).cumsum()
-    gdf = dataframe.groupby(utility_df, sort=False)
+    activities = dataframe.groupby(case_id_key)[activity_key]
 
     if filter_type == "first":
-        dataframe = gdf.first()
+        dataframe = dataframe[dataframe[activity_key] != activities.shift(1)]
     elif filter_type == "last":
-        dataframe = gdf.last()
+        dataframe = dataframe[dataframe[activity_key] != activities.shift(-1)]
 
     dataframe = dataframe.reset_index(drop=True)
-    del dataframe["@@extra1"]
 
     return dataframe
diff --git a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
index e339617..559cca8 100644
--- a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
@@ -67,12 +67,13 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
 
     ret = None
     if filter_type == "first":
-        ret = gdf.first()
+        ret = gdf.head(1)
     elif filter_type == "last":
-        ret = gdf.last()
+        ret = gdf.tail(1)
     elif filter_type == "concat":
-        ret = gdf.first()
-        ret[activity_key] = gdf[activity_key].agg(list).apply(lambda x: " & ".join(sorted(list(x))))
+        ret = gdf.head(1).copy()
+        ret[activity_key] = gdf[activity_key].agg(list).apply(lambda x: " & ".join(sorted(list(x)))).to_numpy()
+
+    ret = ret.reset_index(drop=True)
 
-    ret = ret.reset_index()
     return ret
-- 
2.43.0


From 300db1df7e953a2368eba415f1a4b2ce19d5159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 033/151] fix: XES: quoting and escaping in the line-by-line
 exporter and the text-based importers

---
 .../exporter/xes/variants/etree_xes_exp.py    |  6 +++---
 .../log/exporter/xes/variants/line_by_line.py | 21 +++++++++++--------
 .../log/importer/xes/variants/chunk_regex.py  | 10 ++++++---
 .../log/importer/xes/variants/line_by_line.py | 17 ++++++++-------
 4 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
index 7275fa7..09fd0cb 100644
--- a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
+++ b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
@@ -49,9 +49,9 @@ __TYPE_CORRESPONDENCE = {
     "Timestamp": xes_util.TAG_DATE,
     "bool": xes_util.TAG_BOOLEAN,
     "dict": xes_util.TAG_LIST,
-    "numpy.int64": xes_util.TAG_INT,
-    "numpy.float64": xes_util.TAG_FLOAT,
-    "numpy.datetime64": xes_util.TAG_DATE
+    "int64": xes_util.TAG_INT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN
 }
 # if a type is not found in the previous list, then default to string
 __DEFAULT_TYPE = xes_util.TAG_STRING
diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 2c8e2bd..1b85cca 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -39,9 +39,9 @@ __TYPE_CORRESPONDENCE = {
     "Timestamp": xes_util.TAG_DATE,
     "bool": xes_util.TAG_BOOLEAN,
     "dict": xes_util.TAG_LIST,
-    "numpy.int64": xes_util.TAG_INT,
-    "numpy.float64": xes_util.TAG_FLOAT,
-    "numpy.datetime64": xes_util.TAG_DATE
+    "int64": xes_util.TAG_INT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN
 }
 # if a type is not found in the previous list, then default to string
 __DEFAULT_TYPE = xes_util.TAG_STRING
@@ -117,7 +117,8 @@ def escape(stru):
     escaped_stru
         Escaped string
     """
-    return quoteattr(stru)
+    # always enclose the value in double quotes (the text-based importers expect that)
+    return quoteattr(stru, {'"': "&quot;"})
 
 
 def export_attribute(attr_name, attr_value, indent_level):
@@ -222,15 +223,17 @@ def export_log_line_by_line(log, fp_obj, encoding, parameters=None):
         encoding))
     fp_obj.write(("<log "+xes_util.TAG_VERSION+"=\""+xes_util.VALUE_XES_VERSION+"\" "+xes_util.TAG_FEATURES+"=\""+xes_util.VALUE_XES_FEATURES+"\" "+xes_util.TAG_XMLNS+"=\""+xes_util.VALUE_XMLNS+"\">\n").encode(encoding))
     for ext_name, ext_value in log.extensions.items():
-        fp_obj.write((get_tab_indent(1) + "<extension name=\"%s\" prefix=\"%s\" uri=\"%s\" />\n" % (
-            ext_name, ext_value[xes_util.KEY_PREFIX], ext_value[xes_util.KEY_URI])).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<extension name=%s prefix=%s uri=%s />\n" % (
+            escape(ext_name), escape(ext_value[xes_util.KEY_PREFIX]), escape(ext_value[xes_util.KEY_URI]))).encode(encoding))
     for clas_name, clas_attributes in log.classifiers.items():
-        fp_obj.write((get_tab_indent(1) + "<classifier name=\"%s\" keys=\"%s\" />\n" % (
-            clas_name, " ".join(clas_attributes))).encode(encoding))
+        if any(" " in x for x in clas_attributes):
+            clas_attributes = ["'" + x + "'" for x in clas_attributes]
+        fp_obj.write((get_tab_indent(1) + "<classifier name=%s keys=%s />\n" % (
+            escape(clas_name), escape(" ".join(clas_attributes)))).encode(encoding))
     for attr_name, attr_value in log.attributes.items():
         fp_obj.write(export_attribute(attr_name, attr_value, 1).encode(encoding))
     for scope in log.omni_present:
-        fp_obj.write((get_tab_indent(1) + "<global scope=\"%s\">\n" % (scope)).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<global scope=%s>\n" % (escape(scope))).encode(encoding))
         for attr_name, attr_value in log.omni_present[scope].items():
             fp_obj.write(export_attribute(attr_name, attr_value, 2).encode(encoding))
         fp_obj.write((get_tab_indent(1) + "</global>\n").encode(encoding))
diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 8bf8853..d704425 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -14,7 +14,9 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import codecs
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -59,13 +61,15 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
     nb = 2 ** 12 # bytes per chunk
     rex = re.compile(r"(<|>)")
     parser = dt_parser.get()
+    # a multi-byte character may be split between two chunks
+    decoder = codecs.getincrementaldecoder(encoding)()
     cont = F.read(nb)
     curr_els_attrs = []
     fk_dict = {}
     log = EventLog()
     trace = None
     while cont:
-        lst = deque(rex.split(cont.decode(encoding)))
+        lst = deque(rex.split(decoder.decode(cont)))
         while lst:
             el = lst.popleft()
             if len(el.rstrip()) > 0:
@@ -77,7 +81,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # need to read more
                     cont = F.read(nb)
                     if cont:
-                        lst2 = rex.split(cont.decode(encoding))
+                        lst2 = rex.split(decoder.decode(cont))
                         el = el + lst2[0]
                         lst = deque(lst2[1:])
                     else:
@@ -91,7 +95,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                 idx = el.find(' ')
                 if idx > -1:
                     tag = el[:idx]
-                    el = el.split('\"')
+                    el = [html.unescape(x) for x in el.split('\"')]
                     el[-1] = el[-1].strip()
                     if tag == "string":
                         curr_els_attrs[-1][el[1]] = el[3]
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index a8ec29f..d92c858 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -70,12 +71,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
     value
         Value of the attribute
     """
-    key = content[1]
+    key = html.unescape(content[1])
     value = None
 
     if set_attributes_to_read is None or key in set_attributes_to_read:
         if tag.startswith("string"):
-            value = content[3]
+            value = html.unescape(content[3])
         elif tag.startswith("date"):
             value = date_parser.apply(content[3])
         elif tag.startswith("int"):
@@ -85,7 +86,7 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
         elif tag.startswith("boolean"):
             value = True if content[3] == "true" else False
         else:
-            value = content[3]
+            value = html.unescape(content[3])
 
         # limits the number of different instantiations of the same key
         if key in values_dict:
@@ -94,10 +95,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
             values_dict[key] = key
 
         # limits the number of different instantations of the same value
-        if value in values_dict:
-            value = values_dict[value]
+        # (values of different types, such as 1 and True, may be equal)
+        value_key = (type(value), value)
+        if value_key in values_dict:
+            value = values_dict[value_key]
         else:
-            values_dict[value] = value
+            values_dict[value_key] = value
 
     return key, value
 
@@ -177,7 +180,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 elif tag.startswith("/trace"):
                     log.append(trace)
                     tracecount += 1
-                    if tracecount > max_no_traces_to_import:
+                    if tracecount >= max_no_traces_to_import:
                         break
                     trace = None
             elif tag.startswith("trace"):
-- 
2.43.0


From 7d578e57202eac2a974d8e9bd967ce0ce1bc8bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 034/151] fix: XES iterparse: nested attributes at chunk
 boundaries, equal values of different types

---
 .../log/importer/xes/variants/iterparse.py    | 43 +++++++++++++---
 .../xes/variants/iterparse_mem_compressed.py  | 51 +++++++++++++++----
 2 files changed, 77 insertions(+), 17 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..cee4346 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -418,14 +418,43 @@ def __parse_attribute(elem, store, key, value, tree):
             # changes to the store of lists: not dictionaries anymore
             # but pairs of key-values.
             store.append((key, value))
+            tree[elem] = (store, len(store) - 1, key, value)
         else:
             store[key] = value
+            tree[elem] = (store, key, key, value)
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+        is_list = elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES)
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        if type(store) is list:
+            store.append((key, nested))
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store[key] = nested
+        tree[elem] = children
+        if is_list:
+            tree[elem.getchildren()[0]] = children
     return tree
+
+
+def __get_parent_store(elem, tree):
+    """
+    Gets the object in which the given attribute should be stored.
+
+    When the start of an attribute is processed, its children may not have been parsed yet
+    (lxml feeds the document in chunks). In that case, the attribute has been stored as a plain value,
+    and becomes a nested attribute as soon as its first child is met.
+    """
+    parent = elem.getparent()
+    if parent is None:
+        return None
+    is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
+    attribute = parent.getparent() if is_list and parent not in tree else parent
+    if type(tree.get(attribute)) is tuple:
+        store, position, key, value = tree[attribute]
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        store[position] = (key, nested) if type(store) is list else nested
+        tree[attribute] = children
+        if is_list:
+            tree[parent] = children
+    return tree.get(parent)
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..e16a860 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -113,7 +113,7 @@ def import_from_context(context, num_traces, log, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -421,25 +421,56 @@ def __parse_attribute(elem, store, key, value, tree, compression_dict):
             # set up a new instantiation
             compression_dict[key] = key
 
-        if value in compression_dict:
+        # values of different types, such as 1 and True, may be equal
+        value_key = (type(value), value)
+        if value_key in compression_dict:
             # using existing istantiations of existing objects
-            value = compression_dict[value]
+            value = compression_dict[value_key]
         else:
             # set up a new instantiation
-            compression_dict[value] = value
+            compression_dict[value_key] = value
 
         if type(store) is list:
             # changes to the store of lists: not dictionaries anymore
             # but pairs of key-values.
             store.append((key, value))
+            tree[elem] = (store, len(store) - 1, key, value)
         else:
             store[key] = value
+            tree[elem] = (store, key, key, value)
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+        is_list = elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES)
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        if type(store) is list:
+            store.append((key, nested))
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store[key] = nested
+        tree[elem] = children
+        if is_list:
+            tree[elem.getchildren()[0]] = children
     return tree
+
+
+def __get_parent_store(elem, tree):
+    """
+    Gets the object in which the given attribute should be stored.
+
+    When the start of an attribute is processed, its children may not have been parsed yet
+    (lxml feeds the document in chunks). In that case, the attribute has been stored as a plain value,
+    and becomes a nested attribute as soon as its first child is met.
+    """
+    parent = elem.getparent()
+    if parent is None:
+        return None
+    is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
+    attribute = parent.getparent() if is_list and parent not in tree else parent
+    if type(tree.get(attribute)) is tuple:
+        store, position, key, value = tree[attribute]
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        store[position] = (key, nested) if type(store) is list else nested
+        tree[attribute] = children
+        if is_list:
+            tree[parent] = children
+    return tree.get(parent)
-- 
2.43.0


From 245194d6a4f5c066a13fc5aa8efd48f7ba58fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 035/151] fix: timestamps with an offset are converted to UTC,
 not relabelled

---
 pm4py/util/dt_parsing/variants/strpfromiso.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/dt_parsing/variants/strpfromiso.py b/pm4py/util/dt_parsing/variants/strpfromiso.py
index c3c4e2d..00cadc2 100644
--- a/pm4py/util/dt_parsing/variants/strpfromiso.py
+++ b/pm4py/util/dt_parsing/variants/strpfromiso.py
@@ -34,7 +34,11 @@ def fix_dataframe_column(serie):
 
 def fix_naivety(dt):
     if constants.ENABLE_DATETIME_COLUMNS_AWARE:
-        dt = dt.replace(tzinfo=timezone.utc)
+        if dt.tzinfo is None:
+            dt = dt.replace(tzinfo=timezone.utc)
+        else:
+            # Convert to UTC if it's not already in UTC
+            dt = dt.astimezone(timezone.utc)
     else:
         dt = dt.replace(tzinfo=None)
 
-- 
2.43.0


From 014f83e6dd958a2d6095152de19ce20f2d1edc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 036/151] fix: log conversions: prefixed attribute names,
 missing values in XES, equal values of different types

---
 pm4py/objects/conversion/log/variants/to_event_log.py    | 2 +-
 pm4py/objects/conversion/log/variants/to_event_stream.py | 8 +++++---
 pm4py/write.py                                           | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_log.py b/pm4py/objects/conversion/log/variants/to_event_log.py
index 8b20170..5e37625 100644
--- a/pm4py/objects/conversion/log/variants/to_event_log.py
+++ b/pm4py/objects/conversion/log/variants/to_event_log.py
@@ -92,7 +92,7 @@ def __transform_event_stream_to_event_log(log, case_glue=Parameters.CASE_ID_KEY.
             if include_case_attributes:
                 for k in event.keys():
                     if k.startswith(case_attribute_prefix):
-                        trace_attr[k.replace(case_attribute_prefix, '')] = event[k]
+                        trace_attr[k[len(case_attribute_prefix):]] = event[k]
                 if xes.DEFAULT_TRACEID_KEY not in trace_attr:
                     trace_attr[xes.DEFAULT_TRACEID_KEY] = glue
             traces[glue] = log_instance.Trace(attributes=trace_attr)
diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..8a8b4bd 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -97,10 +97,12 @@ def __compress(list_events):
                 k = compress_dict[k]
             # check if the value has already been instantiated.
             # in that case, use the current instantiation
-            if v not in compress_dict:
-                compress_dict[v] = v
+            # (values of different types, such as 1 and True, may be equal)
+            typed_v = (type(v), v)
+            if typed_v not in compress_dict:
+                compress_dict[typed_v] = v
             else:
-                v = compress_dict[v]
+                v = compress_dict[typed_v]
             # saves the compressed keys and values in the dictionary
             comp_ev[k] = v
         list_events[i] = comp_ev
diff --git a/pm4py/write.py b/pm4py/write.py
index 918d2ed..933a833 100644
--- a/pm4py/write.py
+++ b/pm4py/write.py
@@ -62,6 +62,8 @@ def write_xes(log: Union[EventLog, pd.DataFrame], file_path: str, case_id_key: s
     parameters[constants.PARAMETER_CONSTANT_CASEID_KEY] = case_id_key
     parameters["extensions"] = extensions
     parameters["encoding"] = encoding
+    # the missing values of a dataframe should not become attributes of the events
+    parameters.setdefault("stream_postprocessing", True)
 
     from pm4py.objects.log.exporter.xes import exporter as xes_exporter
     xes_exporter.apply(log, file_path, parameters=parameters)
-- 
2.43.0


From cf235435272c09d1cb1040276858418da9f2ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 037/151] fix: streaming footprints: unknown activities at the
 beginning of a case count, cases are found by their identifier

---
 .../footprints/variants/classic.py            | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..72c9ece 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -116,7 +116,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         activity
             Activity
         """
-        if case not in self.case_dict.keys():
+        if case not in self.dev_dict.keys():
             self.dev_dict[case] = 0
         if activity in self.activities:
             if case not in self.case_dict.keys():
@@ -174,7 +174,8 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
+        case = self.encode_str(case)
+        if case in self.dev_dict.keys():
             num_dev = int(self.dev_dict[case])
             if num_dev == 0:
                 return True
@@ -197,13 +198,16 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            curr = self.case_dict[case]
-            if curr not in self.end_activities:
-                self.message_end_activity_not_possible(curr, case)
-                self.dev_dict[case] = int(self.dev_dict[case]) + 1
+        case = self.encode_str(case)
+        if case in self.dev_dict.keys():
+            # the case is not in case_dict if none of its activities is contained in the footprints
+            if case in self.case_dict.keys():
+                curr = self.case_dict[case]
+                if curr not in self.end_activities:
+                    self.message_end_activity_not_possible(curr, case)
+                    self.dev_dict[case] = int(self.dev_dict[case]) + 1
+                del self.case_dict[case]
             num_dev = int(self.dev_dict[case])
-            del self.case_dict[case]
             del self.dev_dict[case]
             if num_dev == 0:
                 return True
@@ -216,7 +220,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         Terminate all cases
         """
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
         for case in cases:
             self.terminate(case)
 
@@ -303,7 +307,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         import pandas as pd
 
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
 
         diagn_stream = []
 
-- 
2.43.0


From ac5aefaae72f66b6e31a9c0b241cd7281a4495e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 038/151] fix: streaming token replay: silent steps to the
 final marking, insertion and accounting of missing tokens

---
 .../algo/conformance/tbr/variants/classic.py    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..0c699e9 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -119,7 +119,9 @@ class TbrStreamingConformance(StreamingAlgorithm):
         for el in shortest_path:
             if type(el[0]) is PetriNet.Place:
                 for sel in el[1]:
-                    spath = [x for x in el[1][sel][1:-2] if type(x) is PetriNet.Transition]
+                    # the path leading to a transition excludes the transition itself
+                    last = -1 if type(sel) is PetriNet.Transition else None
+                    spath = [x for x in el[1][sel][1:last] if type(x) is PetriNet.Transition]
                     if spath:
                         if not el[0] in dictio_spaths:
                             dictio_spaths[el[0]] = {}
@@ -216,7 +218,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
                 for a in t.in_arcs:
                     pl = a.source
                     mark = a.weight
-                    if pl not in marking or new_marking[pl] < mark:
+                    if marking[pl] < mark:
                         self.missing[case] = int(self.missing[case]) + (mark - marking[pl])
                         marking[pl] = mark
                 new_marking = semantics.weak_execute(t, marking)
@@ -271,6 +273,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         case
             Case
         """
+        case = self.encode_str(case)
         if case in self.case_dict:
             return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
         else:
@@ -294,20 +297,16 @@ class TbrStreamingConformance(StreamingAlgorithm):
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                new_marking = self.reach_fm_with_invisibles(self.decode_marking(self.case_dict[case]))
                 if new_marking is None:
                     new_marking = self.decode_marking(self.case_dict[case])
                 if not new_marking == self.fm:
                     self.message_final_marking_not_reached(case, new_marking)
                     fm_copy = copy(self.fm)
                     for m in fm_copy:
-                        if not m in new_marking:
-                            new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                        self.missing[case] = int(self.missing[case]) + max(0, fm_copy[m] - new_marking[m])
                     for m in new_marking:
-                        if not m in fm_copy:
-                            fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
+                        remaining += max(0, new_marking[m] - fm_copy[m])
             missing = int(self.missing[case])
             is_fit = missing == 0 and remaining == 0
             ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-- 
2.43.0


From 253d47ddf46bb1d5d6973449feed9e8bfe07764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 039/151] fix: live streams: events reach each algorithm in the
 order of their arrival; several stops do not lose wake-ups

---
 pm4py/streaming/stream/live_event_stream.py | 19 +++++++++++++++----
 pm4py/streaming/stream/live_trace_stream.py | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..7f5cc03 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -39,6 +39,8 @@ class LiveEventStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        # the events that each observer still has to receive (in the order of their arrival)
+        self._mailboxes = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -46,14 +48,14 @@ class LiveEventStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -61,9 +63,17 @@ class LiveEventStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                mailbox, lock = self._mailboxes[algo]
+                mailbox.append(event)
+                self._tp.submit(self._receive_next, algo, mailbox, lock)
             self._cond.release()
 
+    @staticmethod
+    def _receive_next(algo, mailbox, lock):
+        # the threads of the pool are not ordered: each takes the oldest event of the mailbox
+        with lock:
+            algo.receive(mailbox.popleft())
+
     def start(self):
         self._cond.acquire()
         self._state = StreamState.ACTIVE
@@ -78,12 +88,13 @@ class LiveEventStream:
         self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def register(self, algo):
         self._cond.acquire()
         self._observers.add(algo)
+        self._mailboxes.setdefault(algo, (collections.deque(), threading.Lock()))
         self._cond.release()
 
     async def deregister(self, algo):
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..bf7a6ca 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -39,6 +39,8 @@ class LiveTraceStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        # the events that each observer still has to receive (in the order of their arrival)
+        self._mailboxes = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -46,14 +48,14 @@ class LiveTraceStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -61,9 +63,17 @@ class LiveTraceStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                mailbox, lock = self._mailboxes[algo]
+                mailbox.append(event)
+                self._tp.submit(self._receive_next, algo, mailbox, lock)
             self._cond.release()
 
+    @staticmethod
+    def _receive_next(algo, mailbox, lock):
+        # the threads of the pool are not ordered: each takes the oldest event of the mailbox
+        with lock:
+            algo.receive(mailbox.popleft())
+
     def start(self):
         self._cond.acquire()
         self._state = StreamState.ACTIVE
@@ -78,12 +88,13 @@ class LiveTraceStream:
         self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     def register(self, algo):
         self._cond.acquire()
         self._observers.add(algo)
+        self._mailboxes.setdefault(algo, (collections.deque(), threading.Lock()))
         self._cond.release()
 
     async def deregister(self, algo):
-- 
2.43.0


From 79784174be6a879128676f33ca2535ec73b9dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 040/151] fix: flattening of object-centric events: object
 types which contain the prefix

---
 pm4py/streaming/conversion/ocel_flatts_distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/conversion/ocel_flatts_distributor.py b/pm4py/streaming/conversion/ocel_flatts_distributor.py
index 087fe21..4f93926 100644
--- a/pm4py/streaming/conversion/ocel_flatts_distributor.py
+++ b/pm4py/streaming/conversion/ocel_flatts_distributor.py
@@ -95,7 +95,7 @@ class OcelFlattsDistributor(object):
         del base_event[self.ocel_activity]
         del base_event[self.ocel_timestamp]
 
-        ev_objects = {x.split(self.ot_prefix)[1]: y for x, y in event.items() if x.startswith(self.ot_prefix)}
+        ev_objects = {x[len(self.ot_prefix):]: y for x, y in event.items() if x.startswith(self.ot_prefix)}
 
         for ot in ev_objects:
             if ot in self.flattened_stream_listeners:
-- 
2.43.0


From 7dd6f1fc8f8c084086a91907fac189484ac66ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 041/151] fix: XES iterparse: lists and nested attributes at
 chunk boundaries

---
 .../log/importer/xes/variants/iterparse.py    |  2 +-
 .../log/importer/xes/variants/iterparse_20.py | 42 +++++++++++++++----
 .../xes/variants/iterparse_mem_compressed.py  |  2 +-
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index cee4346..0f83bdc 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -445,7 +445,7 @@ def __get_parent_store(elem, tree):
     and becomes a nested attribute as soon as its first child is met.
     """
     parent = elem.getparent()
-    if parent is None:
+    if parent is None or elem.tag.endswith(xes_constants.TAG_VALUES):
         return None
     is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
     attribute = parent.getparent() if is_list and parent not in tree else parent
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..eeee5f1 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_parent_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -418,18 +418,42 @@ def __parse_attribute(elem, store, key, value, tree):
             # changes to the store of lists: not dictionaries anymore
             # but pairs of key-values.
             store.append((key, value))
+            tree[elem] = (store, len(store) - 1, key, value)
         elif type(store) is set:
             store.add((key, value))
         else:
             store[key] = value
+            tree[elem] = (store, key, key, value)
     else:
-        if elem.tag.endswith(xes_constants.TAG_LIST):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-        elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        tree[elem] = __new_children(elem)
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: tree[elem]}
+        if type(store) is list:
+            store.append((key, nested))
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store[key] = nested
     return tree
+
+
+def __new_children(elem):
+    if elem.tag.endswith(xes_constants.TAG_LIST):
+        return list()
+    elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
+        return set()
+    return dict()
+
+
+def __get_parent_store(elem, tree):
+    """
+    Gets the object in which the given attribute should be stored.
+
+    When the start of an attribute is processed, its children may not have been parsed yet
+    (lxml feeds the document in chunks). In that case, the attribute has been stored as a plain value,
+    and becomes a nested attribute as soon as its first child is met.
+    """
+    parent = elem.getparent()
+    if type(tree.get(parent)) is tuple:
+        store, position, key, value = tree[parent]
+        tree[parent] = __new_children(parent)
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: tree[parent]}
+        store[position] = (key, nested) if type(store) is list else nested
+    return tree.get(parent)
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index e16a860..63b7fab 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -461,7 +461,7 @@ def __get_parent_store(elem, tree):
     and becomes a nested attribute as soon as its first child is met.
     """
     parent = elem.getparent()
-    if parent is None:
+    if parent is None or elem.tag.endswith(xes_constants.TAG_VALUES):
         return None
     is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
     attribute = parent.getparent() if is_list and parent not in tree else parent
-- 
2.43.0


From 8b454ee1bd0ae2fc7184ceec7483287ad0add79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 042/151] fix: streaming XES readers: nested attributes and
 lists at chunk boundaries and inside lists

---
 .../importer/xes/variants/xes_event_stream.py | 43 ++++++++++++++++---
 .../importer/xes/variants/xes_trace_stream.py | 43 ++++++++++++++++---
 2 files changed, 72 insertions(+), 14 deletions(-)

diff --git a/pm4py/streaming/importer/xes/variants/xes_event_stream.py b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
index 1018fc1..6f2b8ea 100644
--- a/pm4py/streaming/importer/xes/variants/xes_event_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
@@ -36,19 +36,48 @@ def parse_attribute(elem, store, key, value, tree):
             # changes to the store of lists: not dictionaries anymore
             # but pairs of key-values.
             store.append((key, value))
+            tree[elem] = (store, len(store) - 1, key, value)
         else:
             store[key] = value
+            tree[elem] = (store, key, key, value)
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+        is_list = elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES)
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        if type(store) is list:
+            store.append((key, nested))
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store[key] = nested
+        tree[elem] = children
+        if is_list:
+            tree[elem.getchildren()[0]] = children
     return tree
 
 
+def get_parent_store(elem, tree):
+    """
+    Gets the object in which the given attribute should be stored.
+
+    When the start of an attribute is processed, its children may not have been parsed yet
+    (lxml feeds the document in chunks). In that case, the attribute has been stored as a plain value,
+    and becomes a nested attribute as soon as its first child is met.
+    """
+    parent = elem.getparent()
+    if parent is None or elem.tag.endswith(xes_constants.TAG_VALUES):
+        return None
+    is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
+    attribute = parent.getparent() if is_list and parent not in tree else parent
+    if type(tree.get(attribute)) is tuple:
+        store, position, key, value = tree[attribute]
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        store[position] = (key, nested) if type(store) is list else nested
+        tree[attribute] = children
+        if is_list:
+            tree[parent] = children
+    return tree.get(parent)
+
+
 class StreamingEventXesReader:
     def __init__(self, path, parameters=None):
         """
@@ -127,7 +156,7 @@ class StreamingEventXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = get_parent_store(elem, tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
diff --git a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
index e15b100..86697d7 100644
--- a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
@@ -36,19 +36,48 @@ def parse_attribute(elem, store, key, value, tree):
             # changes to the store of lists: not dictionaries anymore
             # but pairs of key-values.
             store.append((key, value))
+            tree[elem] = (store, len(store) - 1, key, value)
         else:
             store[key] = value
+            tree[elem] = (store, key, key, value)
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+        is_list = elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES)
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        if type(store) is list:
+            store.append((key, nested))
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store[key] = nested
+        tree[elem] = children
+        if is_list:
+            tree[elem.getchildren()[0]] = children
     return tree
 
 
+def get_parent_store(elem, tree):
+    """
+    Gets the object in which the given attribute should be stored.
+
+    When the start of an attribute is processed, its children may not have been parsed yet
+    (lxml feeds the document in chunks). In that case, the attribute has been stored as a plain value,
+    and becomes a nested attribute as soon as its first child is met.
+    """
+    parent = elem.getparent()
+    if parent is None or elem.tag.endswith(xes_constants.TAG_VALUES):
+        return None
+    is_list = parent.tag.endswith(xes_constants.TAG_VALUES)
+    attribute = parent.getparent() if is_list and parent not in tree else parent
+    if type(tree.get(attribute)) is tuple:
+        store, position, key, value = tree[attribute]
+        children = list() if is_list else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: children}
+        store[position] = (key, nested) if type(store) is list else nested
+        tree[attribute] = children
+        if is_list:
+            tree[parent] = children
+    return tree.get(parent)
+
+
 class StreamingTraceXesReader:
     def __init__(self, path, parameters=None):
         """
@@ -127,7 +156,7 @@ class StreamingTraceXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = get_parent_store(elem, tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
-- 
2.43.0


From d7e2ff7ae690f11521118dce514297b9cf75d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 043/151] fix: dataframe as iterable: sort the rows

---
 pm4py/streaming/conversion/from_pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..fb1a6b3 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -46,7 +46,7 @@ class PandasDataframeAsIterable(object):
         if not (hasattr(dataframe, "attrs") and dataframe.attrs):
             # dataframe has not been initialized through format_dataframe
             dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+            dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From 0712509e8d564d97d86b8f4d49d625e46b7ce530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 044/151] fix: object-centric filters on connected components
 keep isolated objects as components

---
 .../ocel/split_ocel/variants/connected_components.py          | 1 +
 pm4py/filtering.py                                            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index 22ac53b..b779ba1 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -57,6 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
 
     g0 = object_interaction_graph.apply(ocel, parameters=parameters)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..efdcc44 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1144,6 +1144,7 @@ def filter_ocel_cc_object(ocel: OCEL, object_id: str, conn_comp: Optional[List[L
 
         g0 = object_interaction_graph.apply(ocel)
         g = nx_utils.Graph()
+        g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
         for edge in g0:
             g.add_edge(edge[0], edge[1])
@@ -1187,6 +1188,7 @@ def filter_ocel_cc_length(ocel: OCEL, min_cc_length: int, max_cc_length: int) ->
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1227,6 +1229,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1265,6 +1268,7 @@ def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
-- 
2.43.0


From 27f093e4cbefd3481cc2b6713af0cfafb9a9b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 045/151] fix: filter_ocel_cc_otype with positive=False
 discards the components containing the type

---
 pm4py/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index efdcc44..926dd55 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1220,10 +1220,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         ocel = pm4py.read_ocel('log.jsonocel')
         filtered_ocel = pm4py.filter_ocel_cc_otype(ocel, 'order')
     """
-    if positive:
-        objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
-    else:
-        objs = set(ocel.objects[~(ocel.objects[ocel.object_type_column] == otype)][ocel.object_id_column])
+    objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
 
     from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 
@@ -1235,7 +1232,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         g.add_edge(edge[0], edge[1])
 
     conn_comp = list(nx_utils.connected_components(g))
-    conn_comp = [x for x in conn_comp if len(set(x).intersection(objs)) > 0]
+    conn_comp = [x for x in conn_comp if (len(set(x).intersection(objs)) > 0) == positive]
 
     objs = [y for x in conn_comp for y in x]
 
-- 
2.43.0


From f2607b4555cc0f7a513398fa94f06cea880b373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 046/151] fix: object-centric inheritance enrichment uses the
 inheritance graph

---
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index b5ac28a..7b24950 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -17,7 +17,7 @@
 
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
-from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_cobirth_graph, object_codeath_graph
+from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_inheritance_graph, object_cobirth_graph, object_codeath_graph
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from copy import copy
@@ -66,7 +66,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         for el in graph:
             o2o.add((el[0], el[1], "object_descendants_graph"))
     if "object_inheritance_graph" in included_graphs:
-        graph = object_descendants_graph.apply(ocel, parameters=parameters)
+        graph = object_inheritance_graph.apply(ocel, parameters=parameters)
         for el in graph:
             o2o.add((el[0], el[1], "object_inheritance_graph"))
     if "object_cobirth_graph" in included_graphs:
-- 
2.43.0


From 6d0dc0d1fafd144d420ff7c0e3cf6dceedce2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 047/151] fix: object graphs of object-centric logs with events
 without objects

---
 pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py | 2 +-
 pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py | 2 +-
 .../transformation/ocel/graphs/object_descendants_graph.py    | 2 +-
 .../transformation/ocel/graphs/object_inheritance_graph.py    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
index 919be94..e7389c1 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
index 198b257..b61b80f 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events.reverse()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
index 5a79ce0..cf38ec3 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         if rel_obj_seen and rel_obj_unseen:
diff --git a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
index 08bab77..8c87c32 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
@@ -52,7 +52,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events_revert.reverse()
 
     for ev in ordered_events_revert:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
@@ -63,7 +63,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         rel_obj_last = {x for x in rel_obj if last_event_per_obj[x] == ev}
-- 
2.43.0


From 472d9a31353c5f1ee1bf262a273c3299c8d1c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 048/151] fix: write_ocel2 writes files with the .json
 extension

---
 pm4py/write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/write.py b/pm4py/write.py
index 933a833..2fa45a3 100644
--- a/pm4py/write.py
+++ b/pm4py/write.py
@@ -313,7 +313,7 @@ def write_ocel2(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_EN
         return write_ocel2_sqlite(ocel, file_path, encoding=encoding)
     elif file_path.lower().endswith("xml") or file_path.lower().endswith("xmlocel"):
         return write_ocel2_xml(ocel, file_path, encoding=encoding)
-    elif file_path.lower().endswith("jsonocel"):
+    elif file_path.lower().endswith("json") or file_path.lower().endswith("jsonocel"):
         return write_ocel2_json(ocel, file_path, encoding=encoding)
 
 
-- 
2.43.0


From 2fa019fb9508713bdd367874586673b6c036f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 049/151] fix: OCEL exporters keep the exact instant of the
 timestamps

---
 pm4py/objects/ocel/exporter/util/clean_dataframes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/util/clean_dataframes.py b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
index 6365dd5..de90e11 100644
--- a/pm4py/objects/ocel/exporter/util/clean_dataframes.py
+++ b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
@@ -21,6 +21,13 @@ import pandas as pd
 from pm4py.objects.ocel.obj import OCEL
 
 
+def format_timestamps(column: pd.Series) -> pd.Series:
+    # the trailing Z declares UTC: the timestamps of other time zones need to be converted
+    if column.dt.tz is not None:
+        column = column.dt.tz_convert("UTC")
+    return column.dt.strftime('%Y-%m-%dT%H:%M:%S.%fZ')
+
+
 def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Tuple[
     pd.DataFrame, pd.DataFrame]:
     if parameters is None:
@@ -31,13 +38,13 @@ def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] =
         if str(events[col].dtype) == "object":
             events[col] = events[col].astype('string')
         elif "date" in str(events[col].dtype):
-            events[col] = events[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            events[col] = format_timestamps(events[col])
 
     objects = ocel.objects.copy()
     for col in objects.columns:
         if str(objects[col].dtype) == "object":
             objects[col] = objects[col].astype('string')
         elif "date" in str(objects[col].dtype):
-            objects[col] = objects[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            objects[col] = format_timestamps(objects[col])
 
     return events, objects
-- 
2.43.0


From 51b4a1ef08ca35480a521163945bf007e0ba7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 050/151] fix: OCEL 2.0 JSON export of objects having changes
 but no initial attribute

---
 .../objects/ocel/exporter/jsonocel/variants/ocel20_standard.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 8849068..3e5c1e6 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -98,7 +98,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         oid = change["ocel:oid"]
         obj = json_object["objects"][obj_idx[oid]]
 
-        obj["attributes"].append(
+        obj.setdefault("attributes", []).append(
             {"name": change["ocel:field"], "time": change["ocel:timestamp"], "value": change[change["ocel:field"]]})
 
         json_object["objects"][obj_idx[oid]] = obj
-- 
2.43.0


From c7ef4b1becd331a493d4d3c9479eee98923bea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 051/151] fix: OCEL 2.0 JSON import keeps the time of the first
 change of an attribute

---
 .../objects/ocel/importer/jsonocel/variants/ocel20_standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index cd705b2..7ed3a70 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -79,7 +79,8 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         dct["ocel:ovmap"] = {}
         if "attributes" in obj and obj["attributes"]:
             for x in obj["attributes"]:
-                if x["name"] in dct["ocel:ovmap"]:
+                is_initial = "time" not in x or x["time"] == "0" or x["time"].startswith("1970-01-01T00:00:00")
+                if x["name"] in dct["ocel:ovmap"] or not is_initial:
                     legacy_obj["ocel:objectChanges"].append({"ocel:oid": obj["id"], "ocel:type": obj["type"], "ocel:field": x["name"], x["name"]: x["value"], "ocel:timestamp": x["time"]})
                 else:
                     dct["ocel:ovmap"][x["name"]] = x["value"]
-- 
2.43.0


From b773afb5cc980927cc97d92381ee4763c8c76d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 052/151] fix: JSON-OCEL import keeps all the qualifiers of a
 relation

---
 .../importer/jsonocel/variants/classic.py     | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
index bc33981..b9d1bf3 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
@@ -77,20 +77,24 @@ def get_base_ocel(json_obj: Any, parameters: Optional[Dict[Any, Any]] = None):
                event_activity: ev[event_activity]}
         for k, v in ev[constants.OCEL_VMAP_KEY].items():
             dct[k] = v
-        this_rel = {}
-        for obj in ev[constants.OCEL_OMAP_KEY]:
-            if obj in types_dict:
-                this_rel[obj] = {event_id: ev_id, event_activity: ev[event_activity],
-                                  event_timestamp: parser.apply(ev[event_timestamp]), object_id: obj,
-                                  object_type: types_dict[obj]}
+        # an object can be related to an event with several qualifiers
+        qualifiers = {}
         if constants.OCEL_TYPED_OMAP_KEY in ev:
             for element in ev[constants.OCEL_TYPED_OMAP_KEY]:
                 if object_id in element:
-                    key1 = element[object_id]
-                    if key1 in this_rel:
-                        this_rel[key1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
-        for obj in this_rel:
-            relations.append(this_rel[obj])
+                    this_qualifiers = qualifiers.setdefault(element[object_id], [])
+                    if element[constants.DEFAULT_QUALIFIER] not in this_qualifiers:
+                        this_qualifiers.append(element[constants.DEFAULT_QUALIFIER])
+        for obj in dict.fromkeys(ev[constants.OCEL_OMAP_KEY]):
+            if obj in types_dict:
+                this_rel = {event_id: ev_id, event_activity: ev[event_activity],
+                            event_timestamp: parser.apply(ev[event_timestamp]), object_id: obj,
+                            object_type: types_dict[obj]}
+                if obj in qualifiers:
+                    for qualifier in qualifiers[obj]:
+                        relations.append({**this_rel, constants.DEFAULT_QUALIFIER: qualifier})
+                else:
+                    relations.append(this_rel)
         events.append(dct)
 
     if constants.OCEL_OBJCHANGES_KEY in json_obj:
-- 
2.43.0


From 69c321cf53406040acdfde38f46cf0bb570de317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 053/151] fix: OCEL 2.0 XML export of missing qualifiers

---
 pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
index dda1b26..73b39d4 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
@@ -41,6 +41,10 @@ class Parameters(Enum):
 RELOBJ_TAG = "relationship"
 
 
+def get_qualifier(qualifier: Any) -> str:
+    return "" if pd.isna(qualifier) else str(qualifier)
+
+
 def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -155,7 +159,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for i in range(len(o2o_dict[objid][0])):
                 object_object = etree.SubElement(object_objects, RELOBJ_TAG)
                 object_object.set("object-id", o2o_dict[objid][0][i])
-                object_object.set("qualifier", o2o_dict[objid][1][i])
+                object_object.set("qualifier", get_qualifier(o2o_dict[objid][1][i]))
 
     events = etree.SubElement(root, "events")
     for evid, eve in events0.items():
@@ -171,7 +175,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for i in range(len(this_ids)):
                 event_object = etree.SubElement(event_objects, RELOBJ_TAG)
                 event_object.set("object-id", str(this_ids[i]))
-                event_object.set("qualifier", str(this_qualifiers[i]))
+                event_object.set("qualifier", get_qualifier(this_qualifiers[i]))
         eve = {x: y for x, y in eve.items() if not x.startswith("ocel:") and y is not None and not pd.isna(y)}
         if len(eve) > 0:
             for k, v in eve.items():
-- 
2.43.0


From 42c6f628cc3aa7ac418632109e5ddfc03f074fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 054/151] fix: OCEL 2.0 SQLite import of logs without object
 changes

---
 pm4py/objects/ocel/importer/sqlite/variants/ocel20.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
index ad84a3a..a896a53 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
@@ -132,8 +132,11 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None):
         objects = object_types_coll
         object_changes = None
 
-    del objects[event_timestamp]
+    if event_timestamp in objects:
+        del objects[event_timestamp]
     del objects[cumcount_field]
+    if object_changes is not None:
+        del object_changes[cumcount_field]
 
     E2O = pd.read_sql("SELECT * FROM event_object", conn)
     E2O = E2O.rename(columns={"ocel_event_id": event_id, "ocel_object_id": object_id, "ocel_qualifier": qualifier_field})
-- 
2.43.0


From fc52ee65fd23f1e3c23a23b608d1d8d7bd35709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 055/151] fix: OCEL 2.0 SQLite export of types with the same
 stripped name

---
 .../ocel/exporter/sqlite/variants/ocel20.py   | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 79a91a8..e65912c 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -15,7 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.objects.ocel.obj import OCEL
-from typing import Optional, Dict, Any
+from typing import Optional, Dict, Any, List
 import os
 import pandas as pd
 from datetime import datetime
@@ -29,6 +29,23 @@ class Parameters(Enum):
     ENABLE_NAMES_STRIPPING = "enable_names_stripping"
 
 
+def get_stripped_names(types: List[str]) -> List[str]:
+    # different types may be stripped to the same name (the names of the tables are case insensitive in SQLite,
+    # and the tables event_object/object_object are reserved)
+    used = {"object"}
+    stripped = []
+    for typ in types:
+        base_name = names_stripping.apply(typ)
+        name = base_name
+        i = 2
+        while name.lower() in used:
+            name = base_name + str(i)
+            i = i + 1
+        used.add(name.lower())
+        stripped.append(name)
+    return stripped
+
+
 def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -67,8 +84,10 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
     OBJECT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": object_types, "ocel_type_map": object_types})
 
     if enable_names_stripping:
-        EVENT_CORR_TYPE["ocel_type_map"] = EVENT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
-        OBJECT_CORR_TYPE["ocel_type_map"] = OBJECT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
+        EVENT_CORR_TYPE["ocel_type_map"] = get_stripped_names(event_types)
+        OBJECT_CORR_TYPE["ocel_type_map"] = get_stripped_names(object_types)
+    event_tables = dict(zip(event_types, EVENT_CORR_TYPE["ocel_type_map"]))
+    object_tables = dict(zip(object_types, OBJECT_CORR_TYPE["ocel_type_map"]))
 
     EVENT_CORR_TYPE.to_sql("event_map_type", conn, index=False)
     OBJECT_CORR_TYPE.to_sql("object_map_type", conn, index=False)
@@ -88,7 +107,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df = df.rename(columns={event_id: "ocel_id", event_timestamp: "ocel_time"})
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        act_red = names_stripping.apply(act) if enable_names_stripping else act
+        act_red = event_tables[act]
 
         df = df.drop_duplicates()
         df.to_sql("event_"+act_red, conn, index=False)
@@ -106,7 +125,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
 
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        ot_red = names_stripping.apply(ot) if enable_names_stripping else ot
+        ot_red = object_tables[ot]
 
         df.to_sql("object_"+ot_red, conn, index=False)
 
-- 
2.43.0


From 0187ae15f1ccc613a0fbd14358c284cc2a11bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 056/151] fix: DECLARE discovery counts the occurrences without
 predecessor as violations of precedence

---
 pm4py/algo/discovery/declare/variants/classic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6c25f7e..61d3226 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -189,7 +189,7 @@ def precedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_precedence(act2, act)] = -1
                     else:
                         if act_idxs[act2][0] < act_idxs[act][0]:
                             rules[__rule_precedence(act2, act)] = 1
@@ -256,7 +256,7 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_alternate_precedence(act2, act)] = -1
                     else:
                         is_ok_alt_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
@@ -280,7 +280,7 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_chain_precedence(act2, act)] = -1
                     else:
                         is_ok_chain_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
-- 
2.43.0


From c7780ed056669ccfeaaaab0467fea0c954d8674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 057/151] fix: DECLARE discovery of alternate and chain
 response/precedence

---
 .../discovery/declare/variants/classic.py     | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 61d3226..346a3cc 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -208,16 +208,18 @@ def altresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str
                         rules[__rule_alternate_response(act, act2)] = -1
                     else:
                         is_ok_alt_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
+                        # the occurrences of act2 before the first act are not relevant
+                        idxs2 = [x for x in act_idxs[act2] if x > act_idxs[act][0]]
+                        if len(act_idxs[act]) == len(idxs2):
                             lenn = len(act_idxs[act])
                             is_ok_alt_resp = True
 
                             for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
+                                if act_idxs[act][i] > idxs2[i] or (
+                                        i < lenn - 1 and act_idxs[act][i + 1] < idxs2[i]):
                                     is_ok_alt_resp = False
                                     break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
+                                elif act_idxs[act][i] + 1 != idxs2[i]:
                                     pass
                         rules[__rule_alternate_response(act, act2)] = 1 if is_ok_alt_resp else -1
 
@@ -233,16 +235,18 @@ def chainresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
                         rules[__rule_chain_response(act, act2)] = -1
                     else:
                         is_ok_chain_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
+                        # the occurrences of act2 before the first act are not relevant
+                        idxs2 = [x for x in act_idxs[act2] if x > act_idxs[act][0]]
+                        if len(act_idxs[act]) == len(idxs2):
                             lenn = len(act_idxs[act])
                             is_ok_chain_resp = True
 
                             for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
+                                if act_idxs[act][i] > idxs2[i] or (
+                                        i < lenn - 1 and act_idxs[act][i + 1] < idxs2[i]):
                                     is_ok_chain_resp = False
                                     break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
+                                elif act_idxs[act][i] + 1 != idxs2[i]:
                                     is_ok_chain_resp = False
                                     break
                         rules[__rule_chain_response(act, act2)] = 1 if is_ok_chain_resp else -1
@@ -259,15 +263,17 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
                         rules[__rule_alternate_precedence(act2, act)] = -1
                     else:
                         is_ok_alt_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
+                        # the occurrences of act2 after the last act are not relevant
+                        idxs2 = [x for x in act_idxs[act2] if x < act_idxs[act][-1]]
+                        if len(act_idxs[act]) == len(idxs2):
                             lenn = len(act_idxs[act])
                             is_ok_alt_prec = True
                             for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
+                                if idxs2[i] > act_idxs[act][i] or (
+                                        i < lenn - 1 and idxs2[i + 1] < act_idxs[act][i]):
                                     is_ok_alt_prec = False
                                     break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
+                                elif idxs2[i] + 1 != act_idxs[act][i]:
                                     pass
                         rules[__rule_alternate_precedence(act2, act)] = 1 if is_ok_alt_prec else -1
 
@@ -283,16 +289,18 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
                         rules[__rule_chain_precedence(act2, act)] = -1
                     else:
                         is_ok_chain_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
+                        # the occurrences of act2 after the last act are not relevant
+                        idxs2 = [x for x in act_idxs[act2] if x < act_idxs[act][-1]]
+                        if len(act_idxs[act]) == len(idxs2):
                             lenn = len(act_idxs[act])
                             is_ok_chain_prec = True
                             # check alternate and chain response
                             for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
+                                if idxs2[i] > act_idxs[act][i] or (
+                                        i < lenn - 1 and idxs2[i + 1] < act_idxs[act][i]):
                                     is_ok_chain_prec = False
                                     break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
+                                elif idxs2[i] + 1 != act_idxs[act][i]:
                                     is_ok_chain_prec = False
                                     break
                         rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
-- 
2.43.0


From 217f4651d4734e1f1bbf3e47b898701b35c55a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 058/151] fix: DECLARE discovery with cases having none of the
 considered activities

---
 pm4py/algo/discovery/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 346a3cc..c997195 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -146,7 +146,7 @@ def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]]
                         allowed_templates: Collection[str]):
     if INIT in allowed_templates:
         for act in activities:
-            if act == trace[0]:
+            if len(trace) > 0 and act == trace[0]:
                 rules[__rule_init_column(act)] = 1
             else:
                 rules[__rule_init_column(act)] = -1
-- 
2.43.0


From 3843eb4bb60edffa0456d42af71b8f8d2d7a57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 059/151] fix: DECLARE discovery with only one of the two
 thresholds

---
 pm4py/algo/discovery/declare/variants/classic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index c997195..cf46284 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -567,7 +567,7 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
     min_confidence_ratio = exec_utils.get_param_value(Parameters.MIN_CONFIDENCE_RATIO, parameters, None)
     rules = {}
 
-    if min_support_ratio is None and min_confidence_ratio is None:
+    if min_support_ratio is None or min_confidence_ratio is None:
         # auto determine the minimum support and confidence ratio by identifying the values for the best feature
         auto_selection_multiplier = exec_utils.get_param_value(Parameters.AUTO_SELECTION_MULTIPLIER, parameters, 0.8)
         cols_prod = []
@@ -582,8 +582,10 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
         cols_prod = sorted(cols_prod, key=lambda x: (x[1], x[0]), reverse=True)
         col = rules_df[cols_prod[0][0]]
         supp = len(col[col != 0])
-        min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
-        min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
+        if min_support_ratio is None:
+            min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
+        if min_confidence_ratio is None:
+            min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
 
     for col_name in rules_df:
         col = rules_df[col_name]
-- 
2.43.0


From 57ad64847bfab8a3d00d8eb48791955b9471bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 060/151] fix: DECLARE discovery of non-succession and
 non-chain-succession

---
 .../discovery/declare/variants/classic.py     | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index cf46284..03ad35e 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -306,6 +306,28 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
                         rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
 
 
+def nonsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
+                                 activities: Set[str], act_counter: TCounter[str], act_idxs: Dict[str, List[int]],
+                                 allowed_templates: Collection[str]):
+    if NONSUCCESSION in allowed_templates and SUCCESSION in allowed_templates and RESPONSE in allowed_templates and PRECEDENCE in allowed_templates:
+        for act in activities:
+            for act2 in activities:
+                if act2 != act and (act in act_counter or act2 in act_counter):
+                    is_followed = act in act_counter and act2 in act_counter and act_idxs[act][0] < act_idxs[act2][-1]
+                    rules[__rule_non_succession(act, act2)] = -1 if is_followed else 1
+
+
+def nonchainsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int],
+                                      trace: Collection[str], activities: Set[str], act_counter: TCounter[str],
+                                      act_idxs: Dict[str, List[int]], allowed_templates: Collection[str]):
+    if NONCHAINSUCCESSION in allowed_templates and CHAINSUCCESSION in allowed_templates and CHAINRESPONSE in allowed_templates and CHAINPRECEDENCE in allowed_templates:
+        directly_follows = {(trace[i], trace[i + 1]) for i in range(len(trace) - 1)}
+        for act in activities:
+            for act2 in activities:
+                if act2 != act and (act in act_counter or act2 in act_counter):
+                    rules[__rule_non_chain_succession(act, act2)] = -1 if (act, act2) in directly_follows else 1
+
+
 def absence_template(table, columns: Collection[str], activities: Set[str],
                      allowed_templates: Collection[str]) -> pd.DataFrame:
     if ABSENCE in allowed_templates and EXISTENCE in allowed_templates:
@@ -456,7 +478,8 @@ def nonsuccession_template(table, columns: Collection[str], activities: Set[str]
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_succession(act, act2)] = -1 * table[__rule_succession(act, act2)]
+                    if __rule_non_succession(act, act2) not in columns:
+                        table[__rule_non_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
@@ -466,8 +489,8 @@ def nonchainsuccession_template(table, columns: Collection[str], activities: Set
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_chain_succession(act, act2)] = -1 * table[
-                        __rule_chain_succession(act, act2)]
+                    if __rule_non_chain_succession(act, act2) not in columns:
+                        table[__rule_non_chain_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
@@ -519,6 +542,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
         chainresponse_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         altprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         chainprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonchainsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
 
         for i in range(occs):
             table.append(rules)
-- 
2.43.0


From d514ffa56585e3667864e82f4942d32af44b1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 061/151] fix: DECLARE conformance of alternate and chain
 precedence

---
 pm4py/algo/conformance/declare/variants/classic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d74d5d9..eeac416 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -177,9 +177,9 @@ def __check_alt_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[str
             if act_couple[1] in trace:
                 spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
             spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
+            while spec_idxs:
+                if spec_idxs[-1][0] != act_couple[1]:
+                    del spec_idxs[-1]
                 else:
                     break
             is_ok = True
@@ -203,9 +203,9 @@ def __check_chain_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[s
             if act_couple[1] in trace:
                 spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
             spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
+            while spec_idxs:
+                if spec_idxs[-1][0] != act_couple[1]:
+                    del spec_idxs[-1]
                 else:
                     break
             is_ok = True
-- 
2.43.0


From 3e323b331aa2f5ee625f485688bd2b1a58a90ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 062/151] fix: DECLARE conformance of alternate response

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index eeac416..81eb40d 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -118,7 +118,7 @@ def __check_alt_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str,
                          trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
                          parameters: Optional[Dict[Any, Any]] = None):
     if ALTRESPONSE in model:
-        for act_couple in model[RESPONSE]:
+        for act_couple in model[ALTRESPONSE]:
             spec_idxs = []
             if act_couple[0] in trace:
                 spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-- 
2.43.0


From 58a40635f86130f98e86ee7b5a65ed0008fdd002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 063/151] fix: DECLARE conformance of succession when no
 activity of the pair occurs

---
 pm4py/algo/conformance/declare/variants/classic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 81eb40d..85ae1d3 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -109,9 +109,10 @@ def __check_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, in
                        act_idxs: Dict[str, List[int]], parameters: Optional[Dict[Any, Any]] = None):
     if SUCCESSION in model:
         for act_couple in model[SUCCESSION]:
-            if (not act_couple[0] in trace or not act_couple[1] in trace) or min(act_idxs[act_couple[0]]) > min(
-                    act_idxs[act_couple[1]]) or max(act_idxs[act_couple[0]]) > max(act_idxs[act_couple[1]]):
-                trace_dict["deviations"].append([SUCCESSION, act_couple])
+            if act_couple[0] in trace or act_couple[1] in trace:
+                if (not act_couple[0] in trace or not act_couple[1] in trace) or min(act_idxs[act_couple[0]]) > min(
+                        act_idxs[act_couple[1]]) or max(act_idxs[act_couple[0]]) > max(act_idxs[act_couple[1]]):
+                    trace_dict["deviations"].append([SUCCESSION, act_couple])
 
 
 def __check_alt_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
-- 
2.43.0


From 51bfde20d66a00efde54bb6bb9086ec7515761dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 064/151] fix: DECLARE conformance of non-co-existence,
 non-succession and non-chain-succession

---
 .../conformance/declare/variants/classic.py   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 85ae1d3..5a7b4b6 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -261,6 +261,25 @@ def __check_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                 trace_dict["deviations"].append([CHAINSUCCESSION, act_couple])
 
 
+def __check_non_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                           trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                           parameters: Optional[Dict[Any, Any]] = None):
+    if NONSUCCESSION in model:
+        for act_couple in model[NONSUCCESSION]:
+            if act_couple[0] in trace and act_couple[1] in trace:
+                if min(act_idxs[act_couple[0]]) < max(act_idxs[act_couple[1]]):
+                    trace_dict["deviations"].append([NONSUCCESSION, act_couple])
+
+
+def __check_non_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                                 trace_dict: Dict[str, List[Any]], parameters: Optional[Dict[Any, Any]] = None):
+    if NONCHAINSUCCESSION in model:
+        directly_follows = {(trace[i], trace[i + 1]) for i in range(len(trace) - 1)}
+        for act_couple in model[NONCHAINSUCCESSION]:
+            if tuple(act_couple) in directly_follows:
+                trace_dict["deviations"].append([NONCHAINSUCCESSION, act_couple])
+
+
 def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[str, int]]],
                parameters: Optional[Dict[Any, Any]] = None) -> List[Dict[str, Any]]:
     if parameters is None:
@@ -299,7 +318,8 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_alt_succession(trace, model, ret, act_idxs, parameters)
         __check_chain_succession(trace, model, ret, act_idxs, parameters)
         __check_absence(trace, model, ret, parameters)
-        __check_non_coexistence(trace, model, ret, parameters)
+        __check_non_succession(trace, model, ret, act_idxs, parameters)
+        __check_non_chain_succession(trace, model, ret, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
         ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
-- 
2.43.0


From 07385d807ea7f967232c939255cd103e3e1a27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 065/151] fix: DECLARE conformance against a model without
 constraints

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 5a7b4b6..8eb3618 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -322,7 +322,7 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_non_chain_succession(trace, model, ret, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
-        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
+        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"] if ret["no_constr_total"] > 0 else 1.0
         ret["is_fit"] = ret["no_dev_total"] == 0
 
         conf_cases.append(ret)
-- 
2.43.0


From 6d035ea1bab859daa4530fa4d30d634ed0363313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 066/151] fix: DECLARE discovery when no constraint has
 positive support

---
 pm4py/algo/discovery/declare/variants/classic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 03ad35e..c6357f4 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -604,6 +604,10 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
                 conf_ratio = float(len(col[col == 1])) / float(supp)
                 prod = supp_ratio * conf_ratio
                 cols_prod.append((col_name, prod))
+        if not cols_prod:
+            # no constraint has a positive support
+            return rules
+
         cols_prod = sorted(cols_prod, key=lambda x: (x[1], x[0]), reverse=True)
         col = rules_df[cols_prod[0][0]]
         supp = len(col[col != 0])
-- 
2.43.0


From c942ab1957210ece7b4f335d497389b3e0baefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 067/151] fix: log skeleton discovery counts every occurrence
 once for always-after and always-before

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index f9dd74a..5cb3c85 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -55,7 +55,8 @@ def after(trace):
     rel
         After- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j > i)
+    # every occurrence of an activity is counted at most once for each activity that follows
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[i+1:]))
 
 
 def before(trace):
@@ -72,7 +73,8 @@ def before(trace):
     rel
         Before- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j < i)
+    # every occurrence of an activity is counted at most once for each activity that precedes
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[:i]))
 
 
 def combos(trace):
-- 
2.43.0


From 292483a24dc5ccc12e4895fc5ded4ecca7f58ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 068/151] fix: log skeleton conformance requires always-after,
 always-before and directly-follows of every occurrence

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index 5cb3c85..1c0aa1c 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -132,4 +132,10 @@ def get_trace_info(trace):
     """
     Technical method for conformance checking
     """
-    return (equivalence(trace), after(trace), before(trace), combos(trace), directly_follows(trace), activ_freq(trace))
+    freq = activ_freq(trace)
+
+    def always(rel):
+        # the pairs (x, y) for which every occurrence of x is in the relation with y
+        return [pair for pair, count in Counter(rel).items() if count >= freq[pair[0]]]
+
+    return (equivalence(trace), always(after(trace)), always(before(trace)), combos(trace), always(directly_follows(trace)), freq)
-- 
2.43.0


From 7ce626ba06f11001afb80debe72aaa13530d62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 069/151] fix: activity frequencies of the log skeleton with
 noise on dataframes

---
 pm4py/algo/discovery/log_skeleton/variants/classic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index dcaa298..b406ccd 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -277,14 +277,17 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
         all_activs = log[activity_key].value_counts().to_dict()
         logs_traces = Counter([tuple(x) for x in log.groupby(case_id_key)[activity_key].agg(list).to_dict().values()])
 
+    # number of cases of the log
+    len_log = sum(logs_traces.values())
+
     ret = {}
     ret[Outputs.EQUIVALENCE.value] = equivalence(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_AFTER.value] = always_after(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_BEFORE.value] = always_before(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len(log),
+    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len_log,
                                                        noise_threshold=noise_threshold)
     ret[Outputs.DIRECTLY_FOLLOWS.value] = directly_follows(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len(log), noise_threshold=noise_threshold)
+    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len_log, noise_threshold=noise_threshold)
 
     return ret
 
-- 
2.43.0


From cdec3af21bafcd99b7502a74ed2f21fd9cad6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 070/151] fix: never-together of the log skeleton with noise
 counts the occurrences of the first activity

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index 1c0aa1c..e6886b7 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -91,7 +91,8 @@ def combos(trace):
     rel
         Combos inside the trace
     """
-    return set((x, y) for x in trace for y in trace if x != y)
+    # every occurrence of an activity is counted once for each other activity of the trace
+    return list((x, y) for x in trace for y in set(trace) if x != y)
 
 
 def directly_follows(trace):
-- 
2.43.0


From 1179709ceb39c2a454159f69caf6526dab3f1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 071/151] fix: diagnostics dataframe of the temporal profile
 for pandas dataframes

---
 pm4py/algo/conformance/temporal_profile/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/temporal_profile/algorithm.py b/pm4py/algo/conformance/temporal_profile/algorithm.py
index e4ab4b6..cdda936 100644
--- a/pm4py/algo/conformance/temporal_profile/algorithm.py
+++ b/pm4py/algo/conformance/temporal_profile/algorithm.py
@@ -89,7 +89,7 @@ def get_diagnostics_dataframe(elog: Union[EventLog, pd.DataFrame], conf_result:
     if parameters is None:
         parameters = {}
 
-    if pandas_utils.check_is_pandas_dataframe(log):
+    if pandas_utils.check_is_pandas_dataframe(elog):
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         cases = pandas_utils.format_unique(elog[case_id_key].unique())
     else:
-- 
2.43.0


From 62eae59243feb30f5b0189961ea1a4300fabc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:14 +0000
Subject: [PATCH 072/151] fix: diagnostics dataframe of the temporal profile
 for event logs

---
 pm4py/conformance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index d438e2c..96ea159 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -721,6 +721,9 @@ def conformance_temporal_profile(log: Union[EventLog, pd.DataFrame], temporal_pr
     result = temporal_profile_conformance.apply(log, temporal_profile, parameters=properties)
 
     if return_diagnostics_dataframe:
+        if not check_is_pandas_dataframe(log):
+            # the cases of an event log are identified by the attributes of the traces
+            properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=None)
         return temporal_profile_conformance.get_diagnostics_dataframe(log, result, parameters=properties)
 
     return result
-- 
2.43.0


From 553c42db7f5fe01be1b180ec19cbb43d0131be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 073/151] fix: temporal profile conformance of dataframes
 against an empty profile

---
 pm4py/algo/conformance/temporal_profile/variants/dataframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
index bd9afcd..38b4a75 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
@@ -86,7 +86,8 @@ def apply(df: pd.DataFrame, temporal_profile: typing.TemporalProfile,
 
     temporal_profile = pandas_utils.instantiate_dataframe([{activity_key: x[0], activity_key + "_2": x[1], "@@min": y[0] - zeta * y[1],
                                       "@@max": y[0] + zeta * y[1], "@@mean": y[0], "@@std": y[1]} for x, y in
-                                     temporal_profile.items()])
+                                     temporal_profile.items()],
+                                     columns=[activity_key, activity_key + "_2", "@@min", "@@max", "@@mean", "@@std"])
 
     cases = pandas_utils.format_unique(df[case_id_key].unique())
     ret = [[] for c in cases]
-- 
2.43.0


From f4cec4468535ae627a08b628746d6773d13fab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 074/151] fix: predecessors of the short loops in the alpha+
 miner

---
 pm4py/algo/discovery/alpha/variants/plus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 1980c30..de7c226 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -101,7 +101,7 @@ def preprocessing(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
                 filtered_trace.append(current)
             if successor in loop_one_list:
                 if not current in loop_one_list:
-                    if current in A:
+                    if successor in A:
                         A[successor].append(current)
                     else:
                         A[successor] = [current]
-- 
2.43.0


From d230230ba60a605b70821759af36f3dd421a6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 075/151] fix: length-one loops of the alpha+ miner are
 attached to the place of the net

---
 pm4py/algo/discovery/alpha/variants/plus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index de7c226..8ba30ca 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -446,6 +446,8 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
         label_transition_dict[label] = PetriNet.Transition(label, label)
         net.transitions.add(label_transition_dict[label])
 
+    places = {place.name: place for place in net.places}
+
     # F L1L
     # Key is specific loop element
     for key, value in A.items():
@@ -457,8 +459,8 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
                 in_part = pair_try[0]
                 out_part = pair_try[1]
                 if pair[0].issubset(in_part) and pair[1].issubset(out_part):
-                    pair_try_place = PetriNet.Place(str(pair_try))
-                    net.places.add(pair_try_place)
+                    # the place that has been created for the pair
+                    pair_try_place = places[str(pair_try)]
                     add_arc_from_to(label_transition_dict[key], pair_try_place, net)
                     add_arc_from_to(pair_try_place, label_transition_dict[key], net)
     return net, initial_marking, final_marking
-- 
2.43.0


From 136e55969d80b39f3a97bb8e6a4b6b9c9e670cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 076/151] fix: unrelated activities in the alpha+ miner

---
 pm4py/algo/discovery/alpha/variants/plus.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 8ba30ca..2437dff 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -378,18 +378,7 @@ def get_sharp_relation(follows, instance_one, instance_two):
     bool
         Boolean (sharp relation holds?)
     """
-    if instance_one in follows:
-        if instance_two in follows:
-            if not instance_two in follows[instance_one] and not instance_one in follows[instance_two]:
-                return True
-    if not instance_one in follows and not instance_two in follows:
-        return True
-    if instance_one in follows:
-        if instance_two in follows[instance_one]:
-            return False
-    if instance_two in follows:
-        if instance_one in follows[instance_two]:
-            return False
+    return instance_two not in follows.get(instance_one, ()) and instance_one not in follows.get(instance_two, ())
 
 
 def get_sharp_relations_for_sets(follows, set_1, set_2):
-- 
2.43.0


From 5017b8334daee363217b8b52e0584725bb8fe14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 077/151] fix: alpha+ joins only pairs of sets that are
 causally related

---
 pm4py/algo/discovery/alpha/variants/plus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 2437dff..09f618e 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -331,7 +331,7 @@ def processing(log: EventLog, causal: Tuple[str, str], follows: Tuple[str, str])
                                                                                                             t1[1],
                                                                                                             t2[1]):
                         new_alpha_pair = (t1[0] | t2[0], t1[1] | t2[1])
-                        if new_alpha_pair not in pairs:
+                        if new_alpha_pair not in pairs and all(y in causal.get(x, ()) for x in new_alpha_pair[0] for y in new_alpha_pair[1]):
                             pairs.append((t1[0] | t2[0], t1[1] | t2[1]))
     # maximize pairs
     cleaned_pairs = list(filter(lambda p: __pair_maximizer(pairs, p), pairs))
-- 
2.43.0


From 42ea2040dfca126a34df0ca638f066571e6ed380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 078/151] fix: alpha+ keeps the initially marked place

---
 pm4py/algo/discovery/alpha/variants/plus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 09f618e..778b4f0 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -584,7 +584,7 @@ def remove_final_hidden_if_possible(net: PetriNet, fm: Marking):
     source_places_last_hidden = [x.source for x in last_hidden.in_arcs]
     removal_possible = len(source_places_last_hidden) == 1
     for place in source_places_last_hidden:
-        if len(place.out_arcs) > 1:
+        if len(place.out_arcs) > 1 or len(place.in_arcs) == 0:
             removal_possible = False
             break
         else:
-- 
2.43.0


From 3e7780463db8c67ea3a6768ba6ee761632ce4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 079/151] fix: prefix tree marks the end of variants that are
 prefixes of other variants

---
 pm4py/algo/transformation/log_to_trie/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_trie/algorithm.py b/pm4py/algo/transformation/log_to_trie/algorithm.py
index 8fd3ce6..89985d5 100644
--- a/pm4py/algo/transformation/log_to_trie/algorithm.py
+++ b/pm4py/algo/transformation/log_to_trie/algorithm.py
@@ -56,6 +56,6 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
             node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
             trie.children.append(node)
             trie = node
-            if i == len(variant) - 1:
-                trie.final = True
+        # a variant may end in a node that has been created for another variant
+        trie.final = True
     return root
-- 
2.43.0


From 5705e61b76d2e8357d2c99eea2e0ab15ee76054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 080/151] fix: a new state with a self loop is added once to
 the transition system

---
 pm4py/algo/discovery/transition_system/variants/view_based.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/discovery/transition_system/variants/view_based.py b/pm4py/algo/discovery/transition_system/variants/view_based.py
index 406529b..9e83923 100644
--- a/pm4py/algo/discovery/transition_system/variants/view_based.py
+++ b/pm4py/algo/discovery/transition_system/variants/view_based.py
@@ -78,6 +78,8 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
     for i in range(0, len(view_sequence) - 1):
         sf = {'state': s for s in transition_system.states if s.name == view_sequence[i][0]}
         sf = sf['state'] if len(sf) > 0 else ts.TransitionSystem.State(view_sequence[i][0])
+        # the source state has to be known when looking for the target, which could be the same state
+        transition_system.states.add(sf)
         st = {'state': s for s in transition_system.states if s.name == view_sequence[i + 1][0]}
         st = st['state'] if len(st) > 0 else ts.TransitionSystem.State(view_sequence[i + 1][0])
         t = {'t': t for t in sf.outgoing if t.name == view_sequence[i][1] and t.from_state == sf and t.to_state == st}
-- 
2.43.0


From c21acd5c197dc7f57c471c12d0af3393fdb1b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 081/151] fix: visible transitions eventually enabled by a
 marking

---
 pm4py/objects/petri_net/utils/align_utils.py | 33 ++++++--------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index a3a660f..7323217 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -437,34 +437,21 @@ def get_visible_transitions_eventually_enabled_by_marking(net, marking):
     marking
         Current marking
     """
-    all_enabled_transitions = sorted(list(semantics.enabled_transitions(net, marking)),
-                                     key=lambda x: (str(x.name), id(x)))
-    initial_all_enabled_transitions_marking_dictio = {}
-    all_enabled_transitions_marking_dictio = {}
-    for trans in all_enabled_transitions:
-        all_enabled_transitions_marking_dictio[trans] = marking
-        initial_all_enabled_transitions_marking_dictio[trans] = marking
     visible_transitions = set()
-    visited_transitions = set()
+    # all the markings that are reached by passing through hidden transitions
+    markings = [marking]
+    visited_markings = {marking}
 
-    i = 0
-    while i < len(all_enabled_transitions):
-        t = all_enabled_transitions[i]
-        marking_copy = copy(all_enabled_transitions_marking_dictio[t])
-
-        if repr([t, marking_copy]) not in visited_transitions:
+    while markings:
+        curr_marking = markings.pop()
+        for t in semantics.enabled_transitions(net, curr_marking):
             if t.label is not None:
                 visible_transitions.add(t)
             else:
-                if semantics.is_enabled(t, net, marking_copy):
-                    new_marking = semantics.execute(t, net, marking_copy)
-                    new_enabled_transitions = sorted(list(semantics.enabled_transitions(net, new_marking)),
-                                                     key=lambda x: (str(x.name), id(x)))
-                    for t2 in new_enabled_transitions:
-                        all_enabled_transitions.append(t2)
-                        all_enabled_transitions_marking_dictio[t2] = new_marking
-            visited_transitions.add(repr([t, marking_copy]))
-        i = i + 1
+                new_marking = semantics.execute(t, net, curr_marking)
+                if new_marking not in visited_markings:
+                    visited_markings.add(new_marking)
+                    markings.append(new_marking)
 
     return visible_transitions
 
-- 
2.43.0


From c8e8e506e9a284fd4577447d1d1a71bcad5b72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 082/151] fix: precision of dataframes weights the empty prefix
 by the number of cases

---
 .../evaluation/precision/variants/align_etconformance.py     | 5 +++--
 .../evaluation/precision/variants/etconformance_token.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..2f9e7fb 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     if sum_at > 0:
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..f4b82e1 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,9 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
-- 
2.43.0


From 31e3881632fbd2a0ddb9571c838829db035d6c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 083/151] fix: precision with activities that contain a comma

---
 pm4py/algo/evaluation/precision/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/utils.py b/pm4py/algo/evaluation/precision/utils.py
index df4c054..736f99d 100644
--- a/pm4py/algo/evaluation/precision/utils.py
+++ b/pm4py/algo/evaluation/precision/utils.py
@@ -124,7 +124,7 @@ def get_log_prefixes(log, activity_key=xes_util.DEFAULT_NAME_KEY, case_id_key=co
 
     for trace in traces:
         for i in range(1, len(trace)):
-            prefix = constants.DEFAULT_VARIANT_SEP.join(trace[0:i])
+            prefix = trace[0:i]
             next_activity = trace[i]
             if prefix not in prefixes:
                 prefixes[prefix] = set()
@@ -148,8 +148,7 @@ def form_fake_log(prefixes_keys, activity_key=xes_util.DEFAULT_NAME_KEY):
     fake_log = EventLog()
     for prefix in prefixes_keys:
         trace = Trace()
-        prefix_activities = prefix.split(constants.DEFAULT_VARIANT_SEP)
-        for activity in prefix_activities:
+        for activity in prefix:
             event = Event()
             event[activity_key] = activity
             trace.append(event)
-- 
2.43.0


From 438c90c0069647f734a0c94820dfdd79a4384afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 084/151] fix: executing a BPMN node passes the diagram

---
 pm4py/objects/bpmn/semantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 0a42086..8b91307 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -39,7 +39,7 @@ def execute(node, bpmn, m):
     if not is_enabled(node, bpmn, m):
         return None
 
-    return weak_execute(node, m)
+    return weak_execute(node, m, bpmn)
 
 
 def try_to_execute(node, bpmn, m):
-- 
2.43.0


From 899991903ab93b9501b0b7bd5f726f681533ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 085/151] fix: inclusive gateways activate any set of outgoing
 flows together

---
 pm4py/objects/bpmn/semantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 8b91307..9758b7d 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -133,11 +133,11 @@ def weak_execute(node, m, bpmn_graph):
                     m_outs.append(m_out)
             elif isinstance(node, BPMN.InclusiveGateway):
                 for out_flows in power_set(node.get_out_arcs()):
+                    m_out = copy.copy(m)
+                    del m_out[node]
                     for out_flow in out_flows:
-                        m_out = copy.copy(m)
-                        del m_out[node]
                         execute_token_flow(out_flow.target, m_out, bpmn_graph)
-                        m_outs.append(m_out)
+                    m_outs.append(m_out)
         return m_outs
 
 
-- 
2.43.0


From 7dab1f5d7e4a164eb5a27e3089f7bba424930242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 086/151] fix: executing a BPMN node consumes only the tokens
 it needs

---
 pm4py/objects/bpmn/semantics.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/bpmn/semantics.py b/pm4py/objects/bpmn/semantics.py
index 9758b7d..3cfc667 100644
--- a/pm4py/objects/bpmn/semantics.py
+++ b/pm4py/objects/bpmn/semantics.py
@@ -62,6 +62,20 @@ def power_set(iterable, min=1):
     return chain.from_iterable(combinations(s, r) for r in range(min, len(s) + 1))
 
 
+def consume_tokens(node, m):
+    """Removes from the marking the tokens that are consumed by executing the node (one token,
+    or one token per incoming flow for a node synchronizing its incoming flows)"""
+    needed = 1
+    if isinstance(node, (
+            BPMN.ParallelGateway,
+            BPMN.InclusiveGateway)) and node.get_gateway_direction() == BPMN.Gateway.Direction.CONVERGING:
+        needed = max(1, len(node.get_in_arcs()))
+    if m[node] > needed:
+        m[node] -= needed
+    else:
+        del m[node]
+
+
 def weak_execute(node, m, bpmn_graph):
     """
     Execute a transition even if it is not fully enabled
@@ -96,8 +110,8 @@ def weak_execute(node, m, bpmn_graph):
     elif isinstance(node, (BPMN.Event, BPMN.Activity)) or (
             isinstance(node, BPMN.Gateway) and node.get_gateway_direction() == BPMN.Gateway.Direction.CONVERGING):
         m_out = copy.copy(m)
-        # reset marking at current node
-        del m_out[node]
+        # consume the tokens at current node
+        consume_tokens(node, m_out)
 
         # add marking at outgoing flow
         if len(node.get_out_arcs()) > 0:
@@ -121,20 +135,20 @@ def weak_execute(node, m, bpmn_graph):
         if node.get_gateway_direction() == BPMN.Gateway.Direction.DIVERGING:
             if isinstance(node, BPMN.ParallelGateway):
                 m_out = copy.copy(m)
-                del m_out[node]
+                consume_tokens(node, m_out)
                 for out_flow in node.get_out_arcs():
                     execute_token_flow(out_flow.target, m_out, bpmn_graph)
                 m_outs.append(m_out)
             elif isinstance(node, BPMN.ExclusiveGateway):
                 for out_flow in node.get_out_arcs():
                     m_out = copy.copy(m)
-                    del m_out[node]
+                    consume_tokens(node, m_out)
                     execute_token_flow(out_flow.target, m_out, bpmn_graph)
                     m_outs.append(m_out)
             elif isinstance(node, BPMN.InclusiveGateway):
                 for out_flows in power_set(node.get_out_arcs()):
                     m_out = copy.copy(m)
-                    del m_out[node]
+                    consume_tokens(node, m_out)
                     for out_flow in out_flows:
                         execute_token_flow(out_flow.target, m_out, bpmn_graph)
                     m_outs.append(m_out)
-- 
2.43.0


From f2c355500cca97ece9ed978fb97fba65352571e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 087/151] fix: subcontracting counts every occurrence

---
 .../sna/variants/log/subcontracting.py                 | 10 +++++-----
 .../sna/variants/pandas/subcontracting.py              | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
index e222f68..b5fc68f 100644
--- a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
@@ -82,11 +82,11 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
index b3a1dbe..dcc761d 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
@@ -85,11 +85,11 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
-- 
2.43.0


From 3415dfae51e8fe82b7567914e5d6047327692edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 088/151] fix: working together on dataframes is normalised by
 the number of cases

---
 .../sna/variants/pandas/working_together.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
index cdcccc7..cf0db71 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
@@ -69,6 +69,8 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
 
     flat_list = sorted(list(set([item for sublist in resources for item in sublist])))
 
+    no_cases = log[case_id_key].nunique()
+
     connections = Counter()
 
     for idx, rv in enumerate(resources):
@@ -79,7 +81,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             res_i = flat_list.index(ord_res_list[i])
             for j in range(i + 1, len(ord_res_list)):
                 res_j = flat_list.index(ord_res_list[j])
-                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(len(log))
-                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(len(log))
+                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(no_cases)
+                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(no_cases)
 
     return SNA(dict(connections), False)
-- 
2.43.0


From 0be27adb226d0c3632f7f0a057bc54b2c09eae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 089/151] fix: organizational networks without connections

---
 pm4py/algo/organizational_mining/sna/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/organizational_mining/sna/algorithm.py b/pm4py/algo/organizational_mining/sna/algorithm.py
index c42847e..cca95a3 100644
--- a/pm4py/algo/organizational_mining/sna/algorithm.py
+++ b/pm4py/algo/organizational_mining/sna/algorithm.py
@@ -83,7 +83,7 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                    Variants.SUBCONTRACTING_LOG]:
         log = log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters)
     sna = exec_utils.get_variant(variant).apply(log, parameters=parameters)
-    abs_max = np.max(np.abs(list(sna.connections.values())))
+    abs_max = np.max(np.abs(list(sna.connections.values())), initial=0)
     if enable_metric_normalization and abs_max > 0:
         for key in sna.connections:
             sna.connections[key] = sna.connections[key] / abs_max
-- 
2.43.0


From f1f317a254ef5966ef68fb85daacfcce1f30c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 090/151] fix: average case duration of a resource considers
 the cases completed in the interval

---
 .../resource_profiles/variants/log.py                 |  7 +++++--
 .../resource_profiles/variants/pandas.py              | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4405337..4a0a192 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -530,8 +530,11 @@ def average_case_duration(log: EventLog, t1: Union[datetime, str], t2: Union[dat
     parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
     log = attributes_filter.apply(log, [r], parameters=parameters_filter)
 
-    from pm4py.algo.filtering.log.timestamp import timestamp_filter
-    log = timestamp_filter.filter_traces_intersecting(log, t1, t2, parameters=parameters)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
+    t1 = get_dt_from_string(t1)
+    t2 = get_dt_from_string(t2)
+    log = EventLog([trace for trace in log if trace and t1 <= trace[-1][timestamp_key] < t2])
 
     from pm4py.statistics.traces.generic.log import case_statistics
     cd = case_statistics.get_cases_description(log, parameters=parameters).values()
diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 97addfb..2b7a8ff 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -542,8 +542,15 @@ def average_case_duration(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[
     parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
     df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
-    from pm4py.algo.filtering.pandas.timestamp import timestamp_filter
-    df = timestamp_filter.filter_traces_intersecting(df, t1, t2, parameters=parameters)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
+    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    t1 = get_dt_from_string(t1)
+    t2 = get_dt_from_string(t2)
+    last_df = df.groupby(case_id_key).last().reset_index()
+    last_df = last_df[last_df[timestamp_key] >= t1]
+    last_df = last_df[last_df[timestamp_key] < t2]
+    df = df[df[case_id_key].isin(last_df[case_id_key])]
 
     from pm4py.statistics.traces.generic.pandas import case_statistics
     cd = case_statistics.get_cases_description(df, parameters=parameters).values()
-- 
2.43.0


From 19e58399eddda30a04461730997e0353800ea729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 091/151] fix: social position of a resource is a fraction of
 resources; case id attribute in the resource profiles

---
 .../resource_profiles/variants/log.py         | 16 ++++++++--------
 .../resource_profiles/variants/pandas.py      | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4a0a192..afb09c7 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -619,15 +619,15 @@ def social_position(log: EventLog, t1_0: Union[datetime, str], t2_0: Union[datet
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
 
-    from pm4py.algo.filtering.log.timestamp import timestamp_filter
-    log = timestamp_filter.apply_events(log, t1_0, t2_0, parameters=parameters)
-
-    from pm4py.algo.filtering.log.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
+    t1 = get_dt_from_string(t1_0)
+    t2 = get_dt_from_string(t2_0)
 
-    filtered_log = attributes_filter.apply(log, [r], parameters=parameters_filter)
+    # resources active in every case during the time slot
+    case_resources = [set(x[resource_key] for x in trace if t1 <= x[timestamp_key] < t2) for trace in log]
 
-    q1 = float(len(filtered_log))
-    q2 = float(len(log))
+    q1 = float(len(set().union(*[x for x in case_resources if r in x])))
+    q2 = float(len(set().union(*case_resources)))
 
     return q1/q2 if q2 > 0 else 0.0
diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 2b7a8ff..bf5b063 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -537,14 +537,15 @@ def average_case_duration(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[
         parameters = {}
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
+    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
-    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
-                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
-    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
     t1 = get_dt_from_string(t1)
     t2 = get_dt_from_string(t2)
     last_df = df.groupby(case_id_key).last().reset_index()
@@ -598,7 +599,8 @@ def interaction_two_resources(df: pd.DataFrame, t1: Union[datetime, str], t2: Un
     df = df[[timestamp_key, resource_key, case_id_key, activity_key]]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r1], parameters=parameters_filter)
     df = attributes_filter.apply(df, [r2], parameters=parameters_filter)
     last_df = df.groupby(case_id_key).last().reset_index()
@@ -651,10 +653,11 @@ def social_position(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[dateti
     df = df[df[timestamp_key] < t2]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     filt_df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
-    q1 = float(filt_df[case_id_key].nunique())
-    q2 = float(df[case_id_key].nunique())
+    q1 = float(filt_df[resource_key].nunique())
+    q2 = float(df[resource_key].nunique())
 
     return q1/q2 if q2 > 0 else 0
-- 
2.43.0


From 8429e316f1908e0f2962cd436c987c5eafe71aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:47 +0000
Subject: [PATCH 092/151] fix: case durations of a dataframe with a start
 timestamp column

---
 .../statistics/traces/generic/pandas/case_statistics.py  | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pm4py/statistics/traces/generic/pandas/case_statistics.py b/pm4py/statistics/traces/generic/pandas/case_statistics.py
index 62cdde3..5a9c13b 100644
--- a/pm4py/statistics/traces/generic/pandas/case_statistics.py
+++ b/pm4py/statistics/traces/generic/pandas/case_statistics.py
@@ -172,12 +172,9 @@ def get_cases_description(df: pd.DataFrame, parameters: Optional[Dict[Union[str,
     business_hours_slots = exec_utils.get_param_value(Parameters.BUSINESS_HOUR_SLOTS, parameters, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
-    grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
-    # grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
-    first_eve_df = grouped_df.first()
-    last_eve_df = grouped_df.last()
-    del grouped_df
-    last_eve_df.columns = [str(col) + '_2' for col in first_eve_df.columns]
+    first_eve_df = df[[case_id_glue, start_timestamp_key]].groupby(df[case_id_glue]).first()
+    last_eve_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue]).last()
+    last_eve_df.columns = [str(col) + '_2' for col in last_eve_df.columns]
     stacked_df = pandas_utils.concat([first_eve_df, last_eve_df], axis=1)
     del first_eve_df
     del last_eve_df
-- 
2.43.0


From 0d7495fbb4b9936e3ea661c3e19285553db1f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 093/151] fix: sampling more events than a dataframe contains
 returns the whole dataframe, as for event streams

---
 pm4py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..bb87b2a 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -529,7 +529,7 @@ def sample_events(log: Union[EventStream, OCEL], num_events: int) -> Union[Event
         from pm4py.objects.ocel.util import sampling
         return sampling.sample_ocel_events(log, parameters={"num_entities": num_events})
     elif check_is_pandas_dataframe(log):
-        return log.sample(n=num_events)
+        return log.sample(n=min(num_events, len(log)))
 
 
 def __event_log_deprecation_warning(log):
-- 
2.43.0


From 74177f7406fdf160f47cf80366b6cb6ba91767c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 094/151] fix: sort_trace keeps the attributes of the trace

---
 pm4py/hof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/hof.py b/pm4py/hof.py
index 23d2434..d2906d7 100644
--- a/pm4py/hof.py
+++ b/pm4py/hof.py
@@ -105,7 +105,7 @@ def sort_trace(trace: log_inst.Trace, key, reverse: bool = False) -> log_inst.Tr
     __event_log_deprecation_warning(trace)
 
     if isinstance(trace, log_inst.Trace):
-        return log_inst.Trace(sorted(trace, key=key, reverse=reverse))
+        return log_inst.Trace(sorted(trace, key=key, reverse=reverse), attributes=trace.attributes)
     else:
         if constants.SHOW_INTERNAL_WARNINGS:
             warnings.warn('input trace object not of appropriate type, sorted() not applied')
-- 
2.43.0


From e6bfee2e86c8b35c040e4ed3358771878d23f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 095/151] fix: splitting and sampling an OCEL by connected
 components keeps its object links, event links and object changes

---
 .../ocel/split_ocel/variants/connected_components.py  |  3 +++
 pm4py/ocel.py                                         | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index b779ba1..cf3e7db 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -86,6 +86,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
         subocel.relations = ocel.relations[ocel.relations[ocel.object_id_column].isin(cc)]
         included_evs = pandas_utils.format_unique(subocel.relations[ocel.event_id_column].unique())
         subocel.events = ocel.events[ocel.events[ocel.event_id_column].isin(included_evs)]
+        subocel.o2o = ocel.o2o[ocel.o2o[ocel.object_id_column].isin(cc) & ocel.o2o[ocel.object_id_column + "_2"].isin(cc)]
+        subocel.e2e = ocel.e2e[ocel.e2e[ocel.event_id_column].isin(included_evs) & ocel.e2e[ocel.event_id_column + "_2"].isin(included_evs)]
+        subocel.object_changes = ocel.object_changes[ocel.object_changes[ocel.object_id_column].isin(cc)]
 
         ret.append(subocel)
 
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index d59103b..74ed392 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -394,6 +394,9 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
     events = None
     objects = None
     relations = None
+    o2o = None
+    e2e = None
+    object_changes = None
     ocel_splits = [x for x in ocel_splits if
                    len(x.events) <= max_num_events_per_cc and len(x.objects) <= max_num_objects_per_cc and len(
                        x.relations) <= max_num_e2o_relations_per_cc]
@@ -406,12 +409,18 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
             events = cc.events
             objects = cc.objects
             relations = cc.relations
+            o2o = cc.o2o
+            e2e = cc.e2e
+            object_changes = cc.object_changes
         else:
             events = pandas_utils.concat([events, cc.events])
             objects = pandas_utils.concat([objects, cc.objects])
             relations = pandas_utils.concat([relations, cc.relations])
+            o2o = pandas_utils.concat([o2o, cc.o2o])
+            e2e = pandas_utils.concat([e2e, cc.e2e])
+            object_changes = pandas_utils.concat([object_changes, cc.object_changes])
 
-    return OCEL(events, objects, relations)
+    return OCEL(events, objects, relations, o2o=o2o, e2e=e2e, object_changes=object_changes)
 
 
 def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
-- 
2.43.0


From 4bb7bddd8bc3007d86ef9a24ae0db529106b8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 096/151] fix: the conversion of an event log to a stream or
 dataframe does not write case attributes into the events of the log

---
 pm4py/objects/conversion/log/variants/to_event_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index 8a8b4bd..419bc21 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -281,7 +281,7 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
-- 
2.43.0


From 3895191cd2cc9231f35380ad3babacfc5f492409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 097/151] fix: directly-follows, partial order and concurrency
 computations do not add columns to the given dataframe

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index a950e1a..bea672c 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,7 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
-            df[start_timestamp_key] = df[timestamp_key]
+            df = df.assign(**{start_timestamp_key: df[timestamp_key]})
         st_eq_ct = True
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -89,7 +89,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         df = df[list(red_attrs)]
 
     if measure == "cost":
-        df[cost_attribute] = df[cost_attribute].fillna(value=0)
+        df = df.assign(**{cost_attribute: df[cost_attribute].fillna(value=0)})
 
     # to get rows belonging to same case ID together, we need to sort on case ID
     if sort_caseid_required:
@@ -212,7 +212,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
     # columns
@@ -297,7 +297,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
-        df[start_timestamp_key] = df[timestamp_key]
+        df = df.assign(**{start_timestamp_key: df[timestamp_key]})
 
     # to get rows belonging to same case ID together, we need to sort on case ID
     if sort_caseid_required:
-- 
2.43.0


From 1f0205e7b19a14cd6ad3d2b42644a5cd066adcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 098/151] fix: the service time computation does not add a
 column to the given dataframe

---
 pm4py/statistics/service_time/pandas/get.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 9f4637a..b803cab 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -82,6 +82,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy(deep=False)
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From d014170f23c8d58a2e1149dc69c65c38fe29c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 099/151] fix: the insertion of arrival/finish rates and
 service/waiting times leaves the given dataframe as it is

---
 pm4py/util/pandas_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/util/pandas_utils.py b/pm4py/util/pandas_utils.py
index 634f9b9..0b77ff8 100644
--- a/pm4py/util/pandas_utils.py
+++ b/pm4py/util/pandas_utils.py
@@ -208,6 +208,8 @@ def insert_case_arrival_finish_rate(log: pd.DataFrame, case_id_column=constants.
     if start_timestamp_column is None:
         start_timestamp_column = timestamp_column
 
+    log = log.copy(deep=False)
+
     case_arrival = log.groupby(case_id_column)[start_timestamp_column].agg("min").to_dict()
     case_arrival = [[x, y.timestamp()] for x, y in case_arrival.items()]
     case_arrival.sort(key=lambda x: (x[1], x[0]))
@@ -255,6 +257,8 @@ def insert_case_service_waiting_time(log: pd.DataFrame, case_id_column=constants
     if start_timestamp_column is None:
         start_timestamp_column = timestamp_column
 
+    log = log.copy(deep=False)
+
     log[diff_start_end_column] = get_total_seconds(log[timestamp_column] - log[start_timestamp_column])
     service_times = log.groupby(case_id_column)[diff_start_end_column].sum().to_dict()
     log[service_time_column] = log[case_id_column].map(service_times)
-- 
2.43.0


From b7c23f8a07cbbb47a9502fc491ca15d8d431d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 100/151] fix: format_dataframe and rebase leave the given
 dataframe as it is

---
 pm4py/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index bb87b2a..e15ad22 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -71,6 +71,9 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
         raise Exception(activity_key + " column (activity) is not in the dataframe!")
     if timestamp_key not in df.columns:
         raise Exception(timestamp_key + " column (timestamp) is not in the dataframe!")
+    # the provided dataframe is left as it is
+    df = df.copy(deep=False)
+
     if case_id != constants.CASE_CONCEPT_NAME:
         if constants.CASE_CONCEPT_NAME in df.columns:
             del df[constants.CASE_CONCEPT_NAME]
-- 
2.43.0


From 5f77640d90cee83d02c7d0d2329f43b0cc363a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 101/151] fix: insert_artificial_start_end leaves the given
 event log as it is

---
 pm4py/objects/log/util/artificial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pm4py/objects/log/util/artificial.py b/pm4py/objects/log/util/artificial.py
index 3fc19db..0d253bb 100644
--- a/pm4py/objects/log/util/artificial.py
+++ b/pm4py/objects/log/util/artificial.py
@@ -23,6 +23,7 @@ from pm4py.util import constants
 from pm4py.util import exec_utils
 from pm4py.util import xes_constants
 import datetime
+from copy import copy
 
 
 class Parameters(Enum):
@@ -61,6 +62,10 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
     artificial_end_activity = exec_utils.get_param_value(Parameters.PARAM_ARTIFICIAL_END_ACTIVITY, parameters,
                                                          constants.DEFAULT_ARTIFICIAL_END_ACTIVITY)
 
+    # the provided log is left as it is
+    log = copy(log)
+    log._list = [copy(trace) for trace in log]
+
     for trace in log:
         start_event = Event({activity_key: artificial_start_activity})
         end_event = Event({activity_key: artificial_end_activity})
-- 
2.43.0


From 0f87b471fea9d77fbf08600f52a786d41354cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 102/151] fix: ocel_consistency (used by the exporters) leaves
 the given OCEL as it is

---
 pm4py/objects/ocel/util/ocel_consistency.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/ocel/util/ocel_consistency.py b/pm4py/objects/ocel/util/ocel_consistency.py
index 009bc6d..6454f54 100644
--- a/pm4py/objects/ocel/util/ocel_consistency.py
+++ b/pm4py/objects/ocel/util/ocel_consistency.py
@@ -16,6 +16,7 @@
 '''
 
 from pm4py.objects.ocel.obj import OCEL
+from copy import copy
 from typing import Optional, Dict, Any
 
 
@@ -48,6 +49,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         "object_changes": ["ocel:oid"]
     }
 
+    # the provided object is left as it is
+    ocel = copy(ocel)
+
     for tab in fields:
         df = getattr(ocel, tab)
         for fie in fields[tab]:
-- 
2.43.0


From 637c69254b896a3bf136022e2c004930ec00c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 103/151] fix: OCEL duplicate dropping/merging, sorting, time
 shifting and lifecycle enrichment leave the given OCEL as it is

---
 pm4py/objects/ocel/util/e2o_qualification.py | 1 +
 pm4py/ocel.py                                | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..dfc509e 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -34,6 +34,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
     ocel = copy(ocel)
+    ocel.relations = ocel.relations.copy()
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
     relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
 
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 74ed392..7fcb8d6 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -440,7 +440,9 @@ def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_drop_duplicates(ocel)
 
     """
+    from copy import copy
     from pm4py.objects.ocel.util import filtering_utils
+    ocel = copy(ocel)
     ocel.relations = ocel.relations.drop_duplicates(
         subset=[ocel.event_activity, ocel.event_timestamp, ocel.object_id_column])
     ocel = filtering_utils.propagate_relations_filtering(ocel)
@@ -465,6 +467,7 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     """
     import copy
     import uuid
+    ocel = copy.deepcopy(ocel)
     relations = copy.copy(ocel.relations)
     if have_common_object:
         relations["@@groupn"] = relations.groupby([ocel.object_id_column, ocel.event_activity, ocel.event_timestamp]).ngroup()
@@ -507,7 +510,9 @@ def ocel_sort_by_additional_column(ocel: OCEL, additional_column: str, primary_c
         ocel = pm4py.ocel_sort_by_additional_column(ocel, 'ordering')
 
     """
-    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=False)
+    from copy import copy
+    ocel = copy(ocel)
+    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=True)
     ocel.events = ocel.events.sort_values([primary_column, additional_column, "@@index"])
     del ocel.events["@@index"]
     ocel.events = ocel.events.reset_index(drop=True)
@@ -531,7 +536,9 @@ def ocel_add_index_based_timedelta(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_add_index_based_timedelta(ocel)
 
     """
+    from copy import deepcopy
     from datetime import timedelta
+    ocel = deepcopy(ocel)
     eids = ocel.events[ocel.event_id_column].to_numpy().tolist()
     eids = {eids[i]: timedelta(milliseconds=i) for i in range(len(eids))}
     ocel.events["@@timedelta"] = ocel.events[ocel.event_id_column].map(eids)
-- 
2.43.0


From b9680319f567bddd5c7ae5b10c16724d3960ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 104/151] fix: get_variants_paths_duration accepts event logs

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 7c8086e..dfcde7e 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -347,7 +347,8 @@ def get_variants_paths_duration(log: Union[EventLog, pd.DataFrame], activity_key
         print(var_paths_durs)
     """
     __event_log_deprecation_warning(log)
-    check_pandas_dataframe_columns(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    if check_is_pandas_dataframe(log):
+        check_pandas_dataframe_columns(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
 
     list_to_concat = []
     for variant, filtered_log in split_by_process_variant(log, activity_key=activity_key, timestamp_key=timestamp_key,
-- 
2.43.0


From 1146f8b6784a3a16c213a28ae7d4e8454accd7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 105/151] fix: time intervals of a log with the same start and
 end can be sorted

---
 .../transformation/log_to_interval_tree/variants/open_paths.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 9a68843..f760d7d 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -84,7 +84,7 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
                         ret_list.append([time_i, time_j, trace[i], trace[j], trace.attributes])
                     break
 
-    ret_list.sort(key=lambda x: (x[0], x[1], x[2], x[3]))
+    ret_list.sort(key=lambda x: (x[0], x[1]))
     return ret_list
 
 
-- 
2.43.0


From 65df5cf313a70e80cace00e68e030b1f6b91fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 106/151] fix: respect the start timestamp in the temporal
 features

---
 .../algo/transformation/log_to_features/variants/temporal.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 98269e1..9ade922 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -87,8 +87,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
-    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
+    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
+    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
     grouped_log = log.groupby(pandas_utils.get_grouper(key=start_timestamp_column, freq=grouper_freq))
 
-- 
2.43.0


From 248eca70ea256cf0226e016ba4a64c24cfe269c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 107/151] fix: count cases with the same extremes in the
 work-in-progress and workload features

---
 .../log_to_features/variants/trace_based.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 17bc89b..9eaafbc 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -196,7 +196,7 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree_dict = {}
-    for case in log:
+    for case_idx, case in enumerate(log):
         if case:
             resources = set(x[resource_key] for x in case if resource_key in x)
             st = case[0][start_timestamp_key].timestamp() - epsilon
@@ -204,7 +204,8 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
             for res in resources:
                 if res not in tree_dict:
                     tree_dict[res] = IntervalTree()
-                tree_dict[res].add(Interval(st, ct))
+                # the position keeps cases having the same extremes apart
+                tree_dict[res].add(Interval(st, ct, case_idx))
 
     resources_list = sorted(list(tree_dict))
 
@@ -255,11 +256,12 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree = IntervalTree()
-    for case in log:
+    for case_idx, case in enumerate(log):
         if case:
             st = case[0][start_timestamp_key].timestamp() - epsilon
             ct = case[-1][timestamp_key].timestamp() + epsilon
-            tree.add(Interval(st, ct))
+            # the position keeps cases having the same extremes apart
+            tree.add(Interval(st, ct, case_idx))
 
     data = []
     feature_names = ["@@work_in_progress"]
-- 
2.43.0


From e1d8706b07d3338aff98ddcbecc2205780e8f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 108/151] fix: skip missing values in the one-hot encoding of a
 string column

---
 pm4py/objects/log/util/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index c4d84ef..14ccb4a 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -346,7 +346,7 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
     """
     vals = pandas_utils.format_unique(df[col].unique())
     for val in vals:
-        if val is not None:
+        if val is not None and not pd.isna(val):
             filt_df_cases = pandas_utils.format_unique(df[df[col] == val][case_id_key].unique())
             new_col = col + "_" + val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "")
             fea_df[new_col] = fea_df[case_id_key].isin(filt_df_cases)
-- 
2.43.0


From 71a8cd528361fb4ae625f006ca1064c29528a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 109/151] fix: alignments from variant lists: PNML strings can
 be read again, costs no longer leak between variants

---
 .../alignments/decomposed/variants/recompos_maximal.py      | 2 +-
 .../alignments/petri_net/variants/dijkstra_less_memory.py   | 4 ++--
 .../alignments/petri_net/variants/dijkstra_no_heuristics.py | 6 +++---
 .../alignments/petri_net/variants/discounted_a_star.py      | 6 +++---
 .../alignments/petri_net/variants/state_equation_a_star.py  | 6 +++---
 .../petri_net/variants/tweaked_state_equation_a_star.py     | 6 +++---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 9b371c6..5411aff 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -70,7 +70,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index 72bc535..c910ff4 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -106,7 +106,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
@@ -147,7 +147,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         variant = varitem[0]
         parameters[Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = this_max_align_time
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
index dadf6c3..3020784 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py
@@ -179,7 +179,7 @@ def apply_from_variants_dictionary(var_dictio, petri_net, initial_marking, final
     dictio_alignments = {}
     for variant in var_dictio:
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -218,7 +218,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         variant = varitem[0]
         parameters[Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = this_max_align_time
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -228,7 +228,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
index cc9ddbd..67529bb 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/discounted_a_star.py
@@ -198,7 +198,7 @@ def apply_from_variants_dictionary(var_dictio, petri_net, initial_marking, final
     dictio_alignments = {}
     for variant in var_dictio:
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -237,7 +237,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         variant = varitem[0]
         parameters[Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = this_max_align_time
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -247,7 +247,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
index c33526f..8dfcef7 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py
@@ -225,7 +225,7 @@ def apply_from_variants_dictionary(var_dictio, petri_net, initial_marking, final
     dictio_alignments = {}
     for variant in var_dictio:
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -264,7 +264,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         variant = varitem[0]
         parameters[Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = this_max_align_time
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -289,7 +289,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..8f6451b 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -217,7 +217,7 @@ def apply_from_variants_dictionary(var_dictio, petri_net, initial_marking, final
     dictio_alignments = {}
     for variant in var_dictio:
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -256,7 +256,7 @@ def apply_from_variants_list(var_list, petri_net, initial_marking, final_marking
         variant = varitem[0]
         parameters[Parameters.PARAM_MAX_ALIGN_TIME_TRACE] = this_max_align_time
         dictio_alignments[variant] = apply_from_variant(variant, petri_net, initial_marking, final_marking,
-                                                        parameters=parameters)
+                                                        parameters=copy(parameters))
     return dictio_alignments
 
 
@@ -281,7 +281,7 @@ def apply_from_variants_list_petri_string(var_list, petri_net_string, parameters
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    petri_net, initial_marking, final_marking = petri_importer.import_petri_from_string(petri_net_string)
+    petri_net, initial_marking, final_marking = petri_importer.import_net_from_string(petri_net_string)
 
     res = apply_from_variants_list(var_list, petri_net, initial_marking, final_marking, parameters=parameters)
     return res
diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 1727575..82a47b1 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -1209,7 +1209,7 @@ def apply_variants_list_petri_string(variants_list, petri_string, parameters=Non
 
     from pm4py.objects.petri_net.importer.variants import pnml as petri_importer
 
-    net, im, fm = petri_importer.import_petri_from_string(petri_string, parameters=parameters)
+    net, im, fm = petri_importer.import_net_from_string(petri_string, parameters=parameters)
 
     return apply_variants_list(variants_list, net, im, fm, parameters=parameters)
 
-- 
2.43.0


From fc3124d8185ec849f9088a8f4c06e556e865fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 110/151] fix: alignments with a DFG report all the moves,
 projections skip the events of log moves

---
 .../alignments/dfg/variants/classic.py        | 22 +++++++++----------
 .../edit_distance/variants/edit_distance.py   |  2 +-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index a499a86..837b311 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -487,18 +487,16 @@ def __return_alignment(state, trace, closed):
     visited = state[POSITION_NUM_VISITED]
     moves = []
     while state[POSITION_PREV] is not None:
-        state = state[POSITION_PREV]
-        is_lm = state[POSITION_IS_LM]
-        is_mm = state[POSITION_IS_MM]
+        prev = state[POSITION_PREV]
         pl = -state[POSITION_LOG] - 1
-        if pl >= 0:
-            lm = ">>"
-            mm = ">>"
-            if not is_lm:
-                mm = state[POSITION_MODEL]
-            if not is_mm:
-                lm = trace[pl]
-            moves.append((lm, mm))
+        if state[POSITION_IS_LM]:
+            moves.append((trace[pl], ">>"))
+        elif state[POSITION_IS_MM]:
+            moves.append((">>", state[POSITION_MODEL]))
+        elif state[POSITION_LOG] != prev[POSITION_LOG]:
+            moves.append((trace[pl], state[POSITION_MODEL]))
+        # the step to the end node is not a move of the alignment
+        state = prev
     moves.reverse()
 
     return {Outputs.ALIGNMENT.value: moves, Outputs.COST.value: cost, Outputs.VISITED.value: visited,
@@ -574,7 +572,7 @@ def project_log_on_dfg(log: Union[EventLog, pd.DataFrame], dfg: Dict[Tuple[str,
             for j in range(len(alignment)):
                 if alignment[j][1] == ">>":
                     # move on log
-                    pass
+                    z = z + 1
                 elif alignment[j][0] == ">>" or alignment[j][0] == alignment[j][1]:
                     is_conforming = False
                     if alignment[j][0] != ">>":
diff --git a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
index 62cd819..0fec832 100644
--- a/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
+++ b/pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py
@@ -252,7 +252,7 @@ def project_log_on_variant(log: Union[EventLog, pd.DataFrame], variant: List[str
             for j in range(len(alignment)):
                 if alignment[j][1] == ">>":
                     # move on log
-                    pass
+                    z = z + 1
                 elif alignment[j][0] == ">>" or alignment[j][0] == alignment[j][1]:
                     is_conforming = False
                     if alignment[j][0] != ">>":
-- 
2.43.0


From c13f3a08ebdc814f3c79ae3c4feca5a72a4728a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 111/151] fix: alignments with a process tree are complete and
 minimal for enabled choices and equal siblings

---
 .../util/search_graph_pt_replay_semantics.py  |  6 ++-
 .../process_tree/variants/search_graph_pt.py  | 38 +++++++------------
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index aba4767..ca5fcd7 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -58,8 +58,10 @@ def can_enable(tree: ProcessTree, state: ProcessTreeState) -> bool:
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE}
             elif ptu.is_operator(tree.parent, Operator.SEQUENCE):
-                return True if tree.parent.children.index(tree) == 0 else ptu.is_in_state(
-                    tree.parent.children[tree.parent.children.index(tree) - 1],
+                # siblings may be equal (e.g., have the same label), look for the position of this one
+                pos = [i for i, c in enumerate(tree.parent.children) if c is tree][0]
+                return True if pos == 0 else ptu.is_in_state(
+                    tree.parent.children[pos - 1],
                     ProcessTree.OperatorState.CLOSED, state)
             elif ptu.is_operator(tree.parent, Operator.LOOP):
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9614676..dda640f 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -51,6 +51,7 @@ class SGASearchState:
         self.leaves = leaves if leaves is not None else list()  # leaves that 'got you here'
         self.parent = parent  # parent search state
         self.children = children if children is not None else set()  # successor search states
+        self.final_leaves = list()  # leaves executed to finish the execution of the tree
         self.path = []
 
     def __lt__(self, other):
@@ -71,28 +72,15 @@ def _construct_result_dictionary(state: SGASearchState, variant: List[str]):
     alignment = list()
     current_state = state
     parent_state = state.parent
+    # the leaves that are executed in order to finish the execution of the tree
+    for leaf in reversed(current_state.final_leaves):
+        alignment.append((align_utils.SKIP, leaf))
     while parent_state is not None:
         if len(current_state.leaves) > 0:
-            if current_state.index == len(variant):
-                leaf_labels = list(reversed(list(map(lambda o: o.label, current_state.leaves))))
-                if variant[-1] in leaf_labels:
-                    i = leaf_labels.index(variant[-1])
-                    leaves_reversed = list(reversed(current_state.leaves))
-                    for j in range(len(leaves_reversed)):
-                        if i == j:
-                            alignment.append((variant[-1], leaves_reversed[j]))
-                        else:
-                            alignment.append((align_utils.SKIP, leaves_reversed[j]))
-                else:
-                    if current_state.costs - len(current_state.leaves) > parent_state.costs:
-                        alignment.append((variant[parent_state.index], align_utils.SKIP))
-                    for leaf in reversed(current_state.leaves):
-                        alignment.append((align_utils.SKIP, leaf))
-            else:
-                alignment.append((variant[parent_state.index], current_state.leaves[len(current_state.leaves) - 1]))
-                leaves_reversed = list(reversed(current_state.leaves))[1:]
-                for n in leaves_reversed:
-                    alignment.append((align_utils.SKIP, n))
+            # the last leaf mimicks the event, the previous leaves are executed in order to enable it
+            alignment.append((variant[parent_state.index], current_state.leaves[-1]))
+            for leaf in reversed(current_state.leaves[:-1]):
+                alignment.append((align_utils.SKIP, leaf))
         else:
             alignment.append((variant[parent_state.index], align_utils.SKIP))
         parent_state = parent_state.parent
@@ -123,6 +111,7 @@ def _check_if_state_exists_and_update(search_state: SGASearchState, collection):
                 alt.costs = search_state.costs
                 alt.parent = search_state.parent
                 alt.leaves = search_state.leaves
+                alt.final_leaves = search_state.final_leaves
     return match
 
 
@@ -151,9 +140,8 @@ def _need_log_move(old_state, new_state, path) -> bool:
     for choice in choices:
         choice = choice[1]
         if pt_util.is_operator(choice, Operator.XOR):
-            if (pt_util.is_in_state(choice, ProcessTree.OperatorState.FUTURE, old_state) or pt_util.is_in_state(choice,
-                                                                                                                ProcessTree.OperatorState.CLOSED,
-                                                                                                                old_state)) and \
+            # a choice that was not open (also one that was just enabled) is resolved by the path
+            if not pt_util.is_in_state(choice, ProcessTree.OperatorState.OPEN, old_state) and \
                     old_state[(id(choice), choice)] != new_state[(id(choice), choice)]:
                 return True
         elif pt_util.is_operator(choice, Operator.LOOP):
@@ -214,7 +202,7 @@ def align_variant(variant, tree_leaf_set, pt):
                 model_moves = _obtain_leaves_from_state_path(path, include_tau=False)
                 sga_state.state = new_state
                 sga_state.costs = sga_state.costs + len(model_moves)
-                sga_state.leaves.extend(_obtain_leaves_from_state_path(path, include_tau=True))
+                sga_state.final_leaves.extend(_obtain_leaves_from_state_path(path, include_tau=True))
                 heapq.heappush(open_set, sga_state)
 
 
@@ -347,7 +335,7 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
             for variant in traces:
                 if variant not in align_dict:
                     al = futures[variant].result()
-                    ltrace_bwc = len(trace) + best_worst_cost
+                    ltrace_bwc = len(variant) + best_worst_cost
                     al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
-- 
2.43.0


From 87e03afc3656ea29d9115e6ce189baaa85e8877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 112/151] fix: approximated tree alignments solve the integer
 program when the relaxation is fractional

---
 .../alignments/process_tree/variants/approximated/matrix_lp.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index e47d94b..9ca5770 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -1289,7 +1289,7 @@ def __ilp_solve(c, Aub, bub, Aeq, beq):
         points = solver.get_points_from_sol(sol, variant="cvxopt_solver_custom_align")
         condition_points = True
         for x in points:
-            if x > TOL or x < 1 - TOL:
+            if abs(x) <= TOL or abs(x - 1) <= TOL:
                 continue
             condition_points = False
             break
-- 
2.43.0


From 6ea348b1aa59c9dcedb804e13e4d195ee1672cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 113/151] fix: the farthest string is returned also if all the
 strings are equal to the given one

---
 pm4py/util/string_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/util/string_distance.py b/pm4py/util/string_distance.py
index 9217e65..51726a9 100644
--- a/pm4py/util/string_distance.py
+++ b/pm4py/util/string_distance.py
@@ -109,7 +109,7 @@ def argmax_levenshtein(stru: str, list_stri: List[str]) -> Union[str, None]:
     if list_stri:
         len_stru = len(stru)
         argmax_dist = None
-        max_edit_dist = 0
+        max_edit_dist = -1
         # sort the strings in the list based on the actual length in comparison
         # to the provided string
         list_stri = sorted(list_stri, key=lambda x: -len(x))
-- 
2.43.0


From c963d7b5fd83dbaacdb410b3b89b1e3231f3db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 114/151] fix: data Petri nets evaluate their guards and keep
 their data

---
 pm4py/objects/petri_net/data_petri_nets/data_marking.py | 5 +++++
 pm4py/objects/petri_net/data_petri_nets/semantics.py    | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/data_petri_nets/data_marking.py b/pm4py/objects/petri_net/data_petri_nets/data_marking.py
index f78f10b..abd361d 100644
--- a/pm4py/objects/petri_net/data_petri_nets/data_marking.py
+++ b/pm4py/objects/petri_net/data_petri_nets/data_marking.py
@@ -26,3 +26,8 @@ class DataMarking(Marking):
         # return str([str(p.name) + ":" + str(self.get(p)) for p in self.keys()])
         # The previous representation had a bug, it took into account the order of the places with tokens
         return str([str(p.name) + ":" + str(self.get(p)) for p in sorted(list(self.keys()), key=lambda x: x.name)]) + " " + str(self.data_dict)
+
+    def __copy__(self):
+        m_out = DataMarking(self)
+        m_out.data_dict = dict(self.data_dict)
+        return m_out
diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index f9f8db5..28f1ee2 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -20,7 +20,7 @@ from pm4py.objects.petri_net.sem_interface import Semantics
 import re
 
 
-security_pattern = re.compile(r'[.]|\\x[0-9a-fA-F]+')
+security_pattern = re.compile(r'[.](?![0-9])|\\x[0-9a-fA-F]+')
 
 
 class DataPetriNetSemantics(Semantics):
@@ -164,7 +164,7 @@ def is_enabled(t, pn, m, e):
         read_variables = t.properties[petri_properties.READ_VARIABLE] if petri_properties.READ_VARIABLE in t.properties else []
         data = copy.copy(m.data_dict)
         data.update(e)
-        evaluate_guard(guard, read_variables, data)
+        return bool(evaluate_guard(guard, read_variables, data))
 
     return True
 
-- 
2.43.0


From e346bc52f5b6d11f2673c9a6dae48e02e9ac14b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 115/151] fix: object-centric logs from event tables, extended
 tables and interleavings

---
 .../interleavings/variants/timestamp_interleavings.py  |  3 ++-
 pm4py/objects/ocel/util/extended_table.py              |  4 +++-
 pm4py/objects/ocel/util/log_ocel.py                    | 10 +++++-----
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
index eba53bc..232b63c 100644
--- a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
+++ b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
@@ -116,6 +116,7 @@ def apply(left_df: pd.DataFrame, right_df: pd.DataFrame, case_relations: pd.Data
 
     md = pandas_utils.concat([df1, df2])
     md = md.sort_values([index_key+left_suffix, index_key+right_suffix])
-    md[timestamp_diff] = pandas_utils.get_total_seconds(md[target_timestamp] - md[source_timestamp])
+    # the difference is computed on the seconds, since the distance from the artificial start/end does not fit a timedelta
+    md[timestamp_diff] = md[target_timestamp].map(lambda x: x.timestamp()) - md[source_timestamp].map(lambda x: x.timestamp())
 
     return md
diff --git a/pm4py/objects/ocel/util/extended_table.py b/pm4py/objects/ocel/util/extended_table.py
index 6e3c817..7d7205b 100644
--- a/pm4py/objects/ocel/util/extended_table.py
+++ b/pm4py/objects/ocel/util/extended_table.py
@@ -37,8 +37,10 @@ class Parameters(Enum):
 
 def parse_list(value):
     if type(value) is str:
-        if value[0] == "[":
+        if value.startswith("["):
             return eval(value)
+    elif isinstance(value, list):
+        return value
     return []
 
 
diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index 9006bf8..c97c67a 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -120,7 +120,7 @@ def from_traditional_log(log: EventLog, parameters: Optional[Dict[Any, Any]] = N
             eve = {ocel_constants.DEFAULT_EVENT_ID: str(ev_count), ocel_constants.DEFAULT_EVENT_ACTIVITY: activity,
                    ocel_constants.DEFAULT_EVENT_TIMESTAMP: timestamp}
             for attr in ev:
-                if attr not in [activity, timestamp]:
+                if attr not in [activity_key, timestamp_key]:
                     eve[attr] = ev[attr]
             events.append(eve)
             relations.append(
@@ -140,7 +140,7 @@ def __get_events_dataframe(df: pd.DataFrame, activity_key: str, timestamp_key: s
     """
     Internal method to get the events dataframe out of a traditional log stored as Pandas dataframe
     """
-    columns = {case_id_key}.union(set(x for x in df.columns if not x.startswith(case_attribute_prefix)))
+    columns = [x for x in df.columns if x == case_id_key or not x.startswith(case_attribute_prefix)]
     df = df[columns]
     df = df.rename(columns={activity_key: ocel_constants.DEFAULT_EVENT_ACTIVITY,
                             timestamp_key: ocel_constants.DEFAULT_EVENT_TIMESTAMP,
@@ -154,7 +154,7 @@ def __get_objects_dataframe(df: pd.DataFrame, case_id_key: str, case_attribute_p
     """
     Internal method to get the objects dataframe out of a traditional log stored as Pandas dataframe
     """
-    columns = {x for x in df.columns if x.startswith(case_attribute_prefix)}
+    columns = [x for x in df.columns if x.startswith(case_attribute_prefix)]
     df = df[columns]
     df = df.rename(columns={case_id_key: ocel_constants.DEFAULT_OBJECT_ID})
     df = df.groupby(ocel_constants.DEFAULT_OBJECT_ID).first().reset_index()
@@ -267,14 +267,14 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
     relations1 = __get_relations_from_events(events1, target_object_type)
 
     relations1_minimal = relations1[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     events2 = __get_events_dataframe(df2, activity_key, timestamp_key, case_id_key, case_attribute_prefix,
                                      events_prefix="E2_")
     objects2 = __get_objects_dataframe(df2, case_id_key, case_attribute_prefix, target_object_type_2)
     relations2 = __get_relations_from_events(events2, target_object_type_2)
     relations2_minimal = relations2[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     interleavings[left_index] = "E1_" + interleavings[left_index].astype(int).astype(str)
     interleavings[right_index] = "E2_" + interleavings[right_index].astype(int).astype(str)
-- 
2.43.0


From b17c265c635eda61460fd1115adeb7cfe2e03382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 116/151] fix: merged events and new object types only concern
 the events they should

---
 pm4py/objects/ocel/util/ev_att_to_obj_type.py | 3 ++-
 pm4py/ocel.py                                 | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/util/ev_att_to_obj_type.py b/pm4py/objects/ocel/util/ev_att_to_obj_type.py
index 08fd77e..52a868e 100644
--- a/pm4py/objects/ocel/util/ev_att_to_obj_type.py
+++ b/pm4py/objects/ocel/util/ev_att_to_obj_type.py
@@ -68,8 +68,9 @@ def apply(ocel: OCEL, param: str, parameters: Optional[Dict[Any, Any]] = None):
     internal_index = exec_utils.get_param_value(Parameters.INTERNAL_INDEX, parameters, constants.DEFAULT_INTERNAL_INDEX)
 
     new_ocel = deepcopy(ocel)
-    new_ocel.events[param] = new_ocel.events[param].astype(str)
+    # the events that do not have the attribute are not related to any of the new objects
     ev_param = new_ocel.events.dropna(subset=[param])[[event_id, event_activity, event_timestamp, param]]
+    ev_param[param] = ev_param[param].astype(str)
     vals = pandas_utils.format_unique(ev_param[param].unique())
     ev_param = ev_param.rename(columns={param: object_id})
     ev_param[object_type] = param
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 7fcb8d6..d21a3a0 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -481,8 +481,11 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     relations = relations.groupby(ocel.event_id_column).first()["@@groupn"].to_dict()
     relations = {x: val_corr[y] for x, y in relations.items()}
 
-    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(relations)
+    # the events without related objects keep their identifier
+    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(lambda x: relations.get(x, x))
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column].map(relations)
+    for e2e_column in [ocel.event_id_column, ocel.event_id_column + "_2"]:
+        ocel.e2e[e2e_column] = ocel.e2e[e2e_column].map(lambda x: relations.get(x, x))
 
     ocel.events = ocel.events.drop_duplicates(subset=[ocel.event_id_column])
     ocel.relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
-- 
2.43.0


From 6d949ac63f0446a7f896c52ba56c6c2cedfd34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 117/151] fix: event features: start and end of objects per
 type look at whole event identifiers, not their characters

---
 .../transformation/ocel/features/events/event_end_ot.py     | 6 +++---
 .../transformation/ocel/features/events/event_start_ot.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
index b4edc68..10066f8 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
@@ -50,10 +50,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
-    feature_names = ["@@event_start_"+ot for ot in object_types]
+    feature_names = ["@@event_end_"+ot for ot in object_types]
     data = []
 
     for ev in ordered_events:
diff --git a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
index 018a071..de7602d 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
@@ -50,8 +50,8 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
     feature_names = ["@@event_start_"+ot for ot in object_types]
     data = []
-- 
2.43.0


From 384b4f84b425a4ad835437f145ebcd85a75a9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 118/151] fix: event features: an interaction is new only once

---
 .../algo/transformation/ocel/features/events/new_interactions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/transformation/ocel/features/events/new_interactions.py b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
index d214296..c891c16 100644
--- a/pm4py/algo/transformation/ocel/features/events/new_interactions.py
+++ b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
@@ -56,6 +56,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
                 for o2 in rel_objs[ev]:
                     if o1 < o2:
                         if not (o1, o2) in interactions:
+                            interactions.add((o1, o2))
                             n = n + 1
         data.append([float(n)])
 
-- 
2.43.0


From 3de12c8a63cddaafc11e9beda1fd5389890f1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 119/151] fix: event features: events without objects have zero
 related objects

---
 .../transformation/ocel/features/events/event_num_rel_objs.py   | 2 +-
 .../ocel/features/events/event_num_rel_objs_type.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
index a2ddf4e..3c4ccbf 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
@@ -48,6 +48,6 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     feature_names = ["@@event_num_rel_objs"]
 
     for ev in ordered_events:
-        data.append([float(len(rel_objs[ev]))])
+        data.append([float(len(rel_objs.get(ev, [])))])
 
     return data, feature_names
diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
index d4b8636..fc82dea 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
@@ -57,7 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     for ev in ordered_events:
         data.append([])
         for ot in object_types:
-            rel_objs_ot = {x for x in rel_objs[ev] if object_type_association[x] == ot}
+            rel_objs_ot = {x for x in rel_objs.get(ev, []) if object_type_association[x] == ot}
             data[-1].append(float(len(rel_objs_ot)))
 
     return data, feature_names
-- 
2.43.0


From 1bf9253674cb015e04eb50b65b5e93890c4e1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 120/151] fix: object features: work in progress counts all the
 objects open during the lifecycle

---
 .../objects/object_work_in_progress.py        | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
index 64cf554..1619bf0 100644
--- a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
+++ b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
@@ -19,6 +19,7 @@ from typing import Optional, Dict, Any
 from pm4py.util import pandas_utils
 from pm4py.algo.transformation.ocel.features.objects import object_lifecycle_duration
 import pandas as pd
+from bisect import bisect_left, bisect_right
 
 
 def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
@@ -47,23 +48,16 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     data, feature_names = object_lifecycle_duration.apply(ocel, parameters=parameters)
     obj_dur = pandas_utils.instantiate_dataframe(data, columns=feature_names)
 
-    obj_dur["@@index"] = obj_dur.index
+    starts = sorted(obj_dur["@@object_lifecycle_start_timestamp"].tolist())
+    ends = sorted(obj_dur["@@object_lifecycle_end_timestamp"].tolist())
     obj_dur = obj_dur.to_dict("records")
 
+    # objects open during the lifecycle: the ones started before its end, except the ones completed before its start
     data = []
-    obj_dur.sort(key=lambda x: (x["@@object_lifecycle_start_timestamp"], x["@@object_lifecycle_end_timestamp"]))
-    for i in range(len(obj_dur)):
-        j = i + 1
-        ct = obj_dur[i]["@@object_lifecycle_end_timestamp"]
-        while j < len(obj_dur):
-            st = obj_dur[j]["@@object_lifecycle_start_timestamp"]
-            if st > ct:
-                break
-            j = j + 1
-        data.append([j - i, obj_dur[i]["@@index"]])
+    for x in obj_dur:
+        started = bisect_right(starts, x["@@object_lifecycle_end_timestamp"])
+        completed = bisect_left(ends, x["@@object_lifecycle_start_timestamp"])
+        data.append([float(started - completed)])
     feature_names = ["@@object_wip"]
 
-    data.sort(key=lambda x: x[1])
-    data = [[float(x[0])] for x in data]
-
     return data, feature_names
-- 
2.43.0


From aa3716fd93153b3b49b147d2b52c80a1489a9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 121/151] fix: extended Cardoso metric counts the distinct sets
 of places reached from each place

---
 pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
index f8dc3fa..d2f8fb5 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
@@ -44,8 +44,7 @@ def apply(petri_net: PetriNet, parameters: Optional[Dict[Any, Any]] = None) -> f
     for place in petri_net.places:
         targets = set()
         for out_arc in place.out_arcs:
-            for out_arc2 in out_arc.target.out_arcs:
-                targets.add(out_arc2.target)
+            targets.add(frozenset(out_arc2.target for out_arc2 in out_arc.target.out_arcs))
         ext_card += len(targets)
 
     return ext_card
-- 
2.43.0


From e4975fcd69c2b231ac3355afa4550539afb4649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 122/151] fix: extended cyclomatic metric works on the states
 and arcs of the reachability graph

---
 .../evaluation/simplicity/variants/extended_cyclomatic.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
index e42cbf5..7e50bf3 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
@@ -52,11 +52,11 @@ def apply(petri_net: PetriNet, im: Optional[Marking] = None, parameters: Optiona
 
     G = nx_utils.DiGraph()
     for n in reach_graph.states:
-        G.add_node(n.name)
+        G.add_node(n)
 
     for n in reach_graph.states:
-        for n2 in n.outgoing:
-            G.add_edge(n, n2)
+        for arc in n.outgoing:
+            G.add_edge(n, arc.to_state)
 
     sg = list(nx_utils.strongly_connected_components(G))
 
-- 
2.43.0


From 945404f4a24331adce77ee8756a5393fda4d3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:06 +0000
Subject: [PATCH 123/151] fix: Petri net decomposition keeps duplicate labels
 together and arc weights

---
 pm4py/objects/petri_net/utils/decomposition.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/decomposition.py b/pm4py/objects/petri_net/utils/decomposition.py
index 2b0708f..d185271 100644
--- a/pm4py/objects/petri_net/utils/decomposition.py
+++ b/pm4py/objects/petri_net/utils/decomposition.py
@@ -29,12 +29,12 @@ def get_graph_components(places, inv_trans, trans_dup_label, tmap):
         G.add_node(x)
     for x in trans_dup_label:
         G.add_node(x)
-    for x in trans_dup_label:
+    for x in tmap:
         i = 0
         while i < len(tmap[x]) - 1:
             j = i + 1
             while j < len(tmap[x]):
-                G.add_edge(tmap[x][i].label, tmap[x][j].label)
+                G.add_edge(tmap[x][i].name, tmap[x][j].name)
                 j = j + 1
             i = i + 1
     all_inserted_val = set(places.values()).union(inv_trans.values()).union(trans_dup_label.values())
@@ -56,7 +56,7 @@ def decompose(net, im, fm):
             if t.label not in tmap:
                 tmap[t.label] = []
             tmap[t.label].append(t)
-    trans_dup_label = {x.label: x for x in net.transitions if x.label is not None and len(tmap[x.label]) > 1}
+    trans_dup_label = {x.name: x for x in net.transitions if x.label is not None and len(tmap[x.label]) > 1}
     trans_labels = {x.name: x.label for x in net.transitions}
     conn_comp = get_graph_components(places, inv_trans, trans_dup_label, tmap)
     list_nets = []
@@ -83,13 +83,13 @@ def decompose(net, im, fm):
                     if st.name not in lmap:
                         lmap[st.name] = PetriNet.Transition(st.name, trans_labels[st.name])
                         net_new.transitions.add(lmap[st.name])
-                    add_arc_from_to(lmap[st.name], lmap[el], net_new)
+                    add_arc_from_to(lmap[st.name], lmap[el], net_new, weight=arc.weight)
                 for arc in old_place.out_arcs:
                     st = arc.target
                     if st.name not in lmap:
                         lmap[st.name] = PetriNet.Transition(st.name, trans_labels[st.name])
                         net_new.transitions.add(lmap[st.name])
-                    add_arc_from_to(lmap[el], lmap[st.name], net_new)
+                    add_arc_from_to(lmap[el], lmap[st.name], net_new, weight=arc.weight)
                 if old_place in im:
                     im_new[lmap[el]] = im[old_place]
                 if old_place in fm:
@@ -141,15 +141,15 @@ def merge_comp(comp1, comp2):
 
     for arc in comp1[0].arcs:
         if type(arc.source) is PetriNet.Place:
-            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net)
+            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net, weight=arc.weight)
         else:
-            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net)
+            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net, weight=arc.weight)
 
     for arc in comp2[0].arcs:
         if type(arc.source) is PetriNet.Place:
-            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net)
+            add_arc_from_to(places[arc.source.name], trans[arc.target.name], net, weight=arc.weight)
         else:
-            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net)
+            add_arc_from_to(trans[arc.source.name], places[arc.target.name], net, weight=arc.weight)
 
     lvis_labels = sorted([t.label for t in net.transitions if t.label is not None])
     t_tuple = tuple(sorted(
-- 
2.43.0


From 9c0654295e9e3296767a68892cb6155f73fbc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:07 +0000
Subject: [PATCH 124/151] fix: flows between inclusive gateways get no extra
 invisible transition in the BPMN conversion

---
 pm4py/objects/conversion/bpmn/variants/to_petri_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/bpmn/variants/to_petri_net.py b/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
index be51bd4..14aa166 100644
--- a/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
+++ b/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
@@ -135,7 +135,7 @@ def apply(bpmn_graph, parameters=None):
             place = PetriNet.Place(str(flow.get_id()))
             if isinstance(source, BPMN.InclusiveGateway) and source_count[source] > 1:
                 inclusive_gateway_exit.add(place.name)
-            elif isinstance(target, BPMN.InclusiveGateway) and target_count[target] > 1:
+            if isinstance(target, BPMN.InclusiveGateway) and target_count[target] > 1:
                 inclusive_gateway_entry.add(place.name)
 
     # remove possible places that are both in inclusive_gateway_exit and inclusive_gateway_entry,
-- 
2.43.0


From 5b25113577bc38f5de964b3e21c8d0d84a9ec42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 125/151] fix: numeric attribute filter on event logs, negative
 polarity, removes the cases with a matching event

---
 .../filtering/log/attributes/attributes_filter.py  | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index f0d214a..6792c13 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -97,15 +97,9 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
             attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
             omni_present=log.omni_present, properties=log.properties)
 
-    if positive:
-        stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
-                             attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-                             omni_present=log.omni_present, properties=log.properties)
-    else:
-        stream = EventStream(
-            list(filter(lambda x: attribute_key in x and (x[attribute_key] < int1 or x[attribute_key] > int2), stream)),
-            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-            omni_present=log.omni_present, properties=log.properties)
+    stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
+                         attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                         omni_present=log.omni_present, properties=log.properties)
 
     all_cases_ids = set(x[case_attribute_prefix + case_key] for x in stream)
 
@@ -113,7 +107,7 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
                             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        if case.attributes[case_key] in all_cases_ids:
+        if (case.attributes[case_key] in all_cases_ids) == positive:
             filtered_log.append(case)
 
     return filtered_log
-- 
2.43.0


From da3d679129ae153ad2a53dc5ba1514c88eaae5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:36 +0000
Subject: [PATCH 126/151] fix: reset reduction rule uses the type property of
 the arcs

---
 pm4py/objects/petri_net/utils/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index c6dea59..2efdc27 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -363,7 +363,7 @@ def apply_r_rule(net):
         for p, t in itertools.product(net.places, net.transitions):
             if p in pre_set(t, properties.RESET_ARC).intersection(pre_set(t, properties.INHIBITOR_ARC)):
                 for arc in [arc for arc in net.arcs]:
-                    if arc.source == p and arc.target == t and arc.arc_type == properties.RESET_ARC:
+                    if arc.source == p and arc.target == t and get_arc_type(arc) == properties.RESET_ARC:
                         remove_arc(net, arc)
                 cont = True
                 break
-- 
2.43.0


From c7ccd41e89364a7df9e2a91c6cf40c948d8c9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:47 +0000
Subject: [PATCH 127/151] fix: self-loop place reduction respects the final
 marking and updates the initial one

---
 pm4py/objects/petri_net/utils/reduction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 2efdc27..41f9f43 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -277,7 +277,7 @@ def apply_elt_rule(net):
     return net
 
 
-def apply_elp_rule(net, im=None):
+def apply_elp_rule(net, im=None, fm=None):
     """
     Apply the Elimination of Self-Loop Places (ELP) rule
 
@@ -288,16 +288,19 @@ def apply_elp_rule(net, im=None):
     """
     if im is None:
         im = {}
+    if fm is None:
+        fm = {}
     cont = True
     while cont:
         cont = False
         for p in [place for place in net.places]:
             if (set([arc.target for arc in p.out_arcs]).issubset(set([arc.source for arc in p.in_arcs]))) and \
-                    (p in im and im[p] >= 1) and \
+                    (p in im and im[p] >= 1) and (p not in fm) and \
                     (post_set(p, properties.RESET_ARC).union(set([arc.target for arc in p.out_arcs])) == set(
                         [arc.source for arc in p.in_arcs])) and \
                     (len(post_set(p, properties.INHIBITOR_ARC)) == 0):
                 remove_place(net, p)
+                del im[p]
                 cont = True
                 break
 
@@ -396,7 +399,7 @@ def apply_reset_inhibitor_net_reduction(net, im=None, fm=None):
     # (FPP) rule is exponential to model size
     # apply_fpp_rule(net, im)
     apply_elt_rule(net)
-    apply_elp_rule(net, im)
+    apply_elp_rule(net, im, fm)
     # (A) rule is exponential to model size
     # apply_a_rule(net)
     apply_r_rule(net)
-- 
2.43.0


From 30f9ff0ea0cd601555002dd75dc42d5e2ff76e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 128/151] fix: count a DFG vertex by its incoming arcs and its
 starts

---
 pm4py/objects/dfg/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/util.py b/pm4py/objects/dfg/util.py
index 3fed580..e299b9c 100644
--- a/pm4py/objects/dfg/util.py
+++ b/pm4py/objects/dfg/util.py
@@ -140,7 +140,7 @@ def get_vertex_frequencies(dfg: DFG) -> Dict[Any, int]:
     for v in get_vertices(dfg):
         c[v] = 0
     for (a, b) in dfg.graph:
-        c[a] += dfg.graph[(a, b)]
+        c[b] += dfg.graph[(a, b)]
     for a in dfg.start_activities:
         c[a] += dfg.start_activities[a]
     return c
-- 
2.43.0


From 37fd847c33076a8f3a2d85510aff7f80095cfc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 129/151] fix: halve the count of one activity, not the running
 sum, in dfg_utils.sum_activities_count

---
 pm4py/objects/dfg/utils/dfg_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/dfg/utils/dfg_utils.py b/pm4py/objects/dfg/utils/dfg_utils.py
index 57a473a..e4ae2f8 100644
--- a/pm4py/objects/dfg/utils/dfg_utils.py
+++ b/pm4py/objects/dfg/utils/dfg_utils.py
@@ -404,15 +404,17 @@ def sum_activities_count(dfg, activities, enable_halving=True):
     sum_values = 0
 
     for act in activities:
+        act_value = 0
         if act in outgoing:
             for act2 in outgoing[act]:
-                sum_values += outgoing[act][act2]
+                act_value += outgoing[act][act2]
         if act in ingoing:
             for act2 in ingoing[act]:
-                sum_values += ingoing[act][act2]
+                act_value += ingoing[act][act2]
         if enable_halving:
             if act in ingoing and act in outgoing:
-                sum_values = int(sum_values / 2)
+                act_value = int(act_value / 2)
+        sum_values += act_value
 
     return sum_values
 
-- 
2.43.0


From f542d88a64898d9cb23a9c0aafc5dc162e2b764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 130/151] fix: keep the name and process of a BPMN sequence
 flow read before its nodes

---
 pm4py/objects/bpmn/importer/variants/lxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/bpmn/importer/variants/lxml.py b/pm4py/objects/bpmn/importer/variants/lxml.py
index 8526ea9..86ab0d0 100644
--- a/pm4py/objects/bpmn/importer/variants/lxml.py
+++ b/pm4py/objects/bpmn/importer/variants/lxml.py
@@ -187,11 +187,12 @@ def parse_element(bpmn_graph, counts, curr_el, parents, incoming_dict, outgoing_
     elif tag.endswith("incoming"): # incoming flow of a node
         name = curr_el.get("name").replace("\r", "").replace("\n", "") if "name" in curr_el.attrib else ""
         if node is not None:
-            incoming_dict[curr_el.text.strip()] = (node, process, tag, name)
+            # does not override the information of the sequence flow, when this has already been read
+            incoming_dict.setdefault(curr_el.text.strip(), (node, process, tag, name))
     elif tag.endswith("outgoing"): # outgoing flow of a node
         name = curr_el.get("name").replace("\r", "").replace("\n", "") if "name" in curr_el.attrib else ""
         if node is not None:
-            outgoing_dict[curr_el.text.strip()] = (node, process, tag, name)
+            outgoing_dict.setdefault(curr_el.text.strip(), (node, process, tag, name))
     elif tag.endswith("sequenceflow"): # normal sequence flow between two nodes
         seq_flow_id = curr_el.get("id")
         source_ref = curr_el.get("sourceRef")
-- 
2.43.0


From be9eecbe2c7376cb7e88af2a78bfc52ad9c070af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 131/151] fix: export the activity to which a BPMN boundary
 event is attached

---
 pm4py/objects/bpmn/exporter/variants/etree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/bpmn/exporter/variants/etree.py b/pm4py/objects/bpmn/exporter/variants/etree.py
index 14099e4..7597b80 100644
--- a/pm4py/objects/bpmn/exporter/variants/etree.py
+++ b/pm4py/objects/bpmn/exporter/variants/etree.py
@@ -141,6 +141,8 @@ def get_xml_string(bpmn_graph, parameters=None):
             task = ET.SubElement(process, "bpmn:intermediateThrowEvent", {"id": node.get_id(), "name": node.get_name()})
         elif isinstance(node, BPMN.BoundaryEvent):
             task = ET.SubElement(process, "bpmn:boundaryEvent", {"id": node.get_id(), "name": node.get_name()})
+            if node.get_activity() is not None:
+                task.set("attachedToRef", node.get_activity())
         elif isinstance(node, BPMN.Task):
             task = ET.SubElement(process, "bpmn:task", {"id": node.get_id(), "name": node.get_name()})
         elif isinstance(node, BPMN.SubProcess):
-- 
2.43.0


From 46351ed8c6d248540b6a3820f9425d28ef77a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:29 +0000
Subject: [PATCH 132/151] fix: generator of alignments (less memory) no longer
 discards states of an optimal path

---
 .../generator_dijkstra_less_memory.py         | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
index 92aed45..2a75c8c 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/generator_dijkstra_less_memory.py
@@ -342,9 +342,10 @@ def __decode_marking(m_t):
     return m_d
 
 
-def __check_closed(closed, ns):
+def __check_closed(closed, ns, cost):
     """
-    Checks if the state is closed
+    Checks if the state is closed, i.e. it has been already visited with a lower cost
+    (an equal cost leads to another optimal alignment)
 
     Parameters
     -------------
@@ -352,21 +353,18 @@ def __check_closed(closed, ns):
         Closed set
     ns
         New state (marking, index)
+    cost
+        Cost of the new state
 
     Returns
     -------------
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed:
-        if closed[ns[0]] < ns[1]:
-            return True
-        elif closed[ns[0]] == ns[1]:
-            return False
-    return False
+    return ns in closed and closed[ns] < cost
 
 
-def __add_closed(closed, ns):
+def __add_closed(closed, ns, cost):
     """
     Adds a closed state
 
@@ -376,8 +374,10 @@ def __add_closed(closed, ns):
         Closed set
     ns
         New state (marking, index)
+    cost
+        Cost of the state
     """
-    closed[ns[0]] = ns[1]
+    closed[ns] = cost
 
 
 def __add_to_open_set(open_set, ns):
@@ -493,7 +493,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
         curr_m = __decode_marking(curr_m0)
         # if a situation equivalent to the one of the current state has been
         # visited previously, then discard this
-        if __check_closed(closed, (curr_m0, curr[POSITION_INDEX])):
+        if __check_closed(closed, (curr_m0, curr[POSITION_INDEX]), curr[POSITION_TOTAL_COST]):
             continue
         visited = visited + 1
 
@@ -512,7 +512,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     visited_sequences.add(ali_sequence)
                     yield ali
                 continue
-        __add_closed(closed, (curr_m0, curr[POSITION_INDEX]))
+        __add_closed(closed, (curr_m0, curr[POSITION_INDEX]), curr[POSITION_TOTAL_COST])
 
         # retrieves the transitions that are enabled in the current marking
         en_t = [t for t in trans_pre_dict if __dict_leq(trans_pre_dict[t], curr_m)]
@@ -532,7 +532,8 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     curr[POSITION_ALIGN_LENGTH] + 1, dummy_count,
                     curr,
                     new_m, t)
-                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]),
+                                      new_state[POSITION_TOTAL_COST]):
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
@@ -551,7 +552,8 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                 curr[POSITION_TOTAL_COST] + transf_model_cost_function[t], curr[POSITION_INDEX], IS_MODEL_MOVE,
                 curr[POSITION_ALIGN_LENGTH] + 1, dummy_count, curr, new_m, t)
             if not curr_m0 == new_m:
-                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+                if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]),
+                                      new_state[POSITION_TOTAL_COST]):
                     open_set = __add_to_open_set(open_set, new_state)
             j = j + 1
 
@@ -564,7 +566,8 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
             new_state = (
                 curr[POSITION_TOTAL_COST] + trace_cost_function[-curr[POSITION_INDEX]], curr[POSITION_INDEX] - 1,
                 IS_LOG_MOVE, curr[POSITION_ALIGN_LENGTH] + 1, dummy_count, curr, curr_m0, None)
-            if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX])):
+            if not __check_closed(closed, (new_state[POSITION_MARKING], new_state[POSITION_INDEX]),
+                                      new_state[POSITION_TOTAL_COST]):
                 # adds the log move only if it has not been already closed before
                 open_set = __add_to_open_set(open_set, new_state)
 
-- 
2.43.0


From fe48b2ac137a4144e68a10dc6d4b4be3c392c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:02 +0000
Subject: [PATCH 133/151] fix: token replay of a variants dictionary replays
 the variants, not their first activity

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 82a47b1..579793d 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -1199,7 +1199,7 @@ def apply_variants_dictionary(variants, net, initial_marking, final_marking, par
     if parameters is None:
         parameters = {}
 
-    var_list = {x: len(y) for x, y in variants.items()}
+    var_list = [[x, len(y)] for x, y in variants.items()]
     return apply_variants_list(var_list, net, initial_marking, final_marking, parameters=parameters)
 
 
-- 
2.43.0


From 891a1a3da5398c98744ea5042e302ed7982c9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 134/151] fix: split a dataframe into activity and case tables
 with list indexers (pandas 2 rejects sets)

---
 pm4py/objects/log/util/dataframe_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index 14ccb4a..78b905b 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -526,7 +526,7 @@ def dataframe_to_activity_case_table(df: pd.DataFrame, parameters: Optional[Dict
     case_attributes = exec_utils.get_param_value(Parameters.CASE_ATTRIBUTES, parameters, set([x for x in df.columns if x.startswith(case_id_prefix)]))
     event_attributes = set([x for x in df.columns if x not in case_attributes])
 
-    activity_table = df[event_attributes.union({case_id_key})]
-    case_table = df[case_attributes.union({case_id_key})].groupby(case_id_key).first().reset_index()
+    activity_table = df[list(event_attributes.union({case_id_key}))]
+    case_table = df[list(set(case_attributes).union({case_id_key}))].groupby(case_id_key).first().reset_index()
 
     return activity_table, case_table
-- 
2.43.0


From d732d6c06cca826e77b293ab8dfc2c3f08f5ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:23 +0000
Subject: [PATCH 135/151] fix: heuristics net conversion skipped redundant
 transitions after a removal

---
 .../objects/conversion/heuristics_net/variants/to_petri_net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
index 432ae48..14c8244 100644
--- a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
+++ b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
@@ -49,6 +49,9 @@ def remove_rendundant_invisible_transitions(net):
                                 postset_j.intersection(postset_i)) == len(postset_j):
                             remove_transition(net, trans[j])
                             del trans[j]
+                            # the removal of an earlier element shifts the current one
+                            if j < i:
+                                i = i - 1
                             continue
                 j = j + 1
             i = i + 1
-- 
2.43.0


From b2bd55709311171b74d9fce66caad25e8e6c2b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:28 +0000
Subject: [PATCH 136/151] fix: merge longer runs in the disconnected
 performance spectrum of event logs

---
 .../discovery/performance_spectrum/variants/log_disconnected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
index 57915f0..cc6de49 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
@@ -82,7 +82,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
 
         i = 0
         while i < len(matches) - 1:
-            matchAct = (trace[mi][activity_key] for mi in (matches[i] + matches[i + 1][1:]))
+            matchAct = tuple(trace[mi][activity_key] for mi in (matches[i] + matches[i + 1][1:]))
             if matches[i][-1] == matches[i + 1][0] and matchAct in all_acti_combs:
                 matches[i] = matches[i] + matches[i + 1][1:]
                 del matches[i + 1]
-- 
2.43.0


From 83d1caf24ef05a7306aee3b0026209aa596f3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:28 +0000
Subject: [PATCH 137/151] fix: compare activities rather than joined names in
 the performance spectrum of dataframes

---
 .../discovery/performance_spectrum/variants/dataframe.py   | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
index 2e34419..db1158c 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe.py
@@ -86,11 +86,10 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
     for i in range(len(list_activities) - 1):
         dataframe = dataframe[dataframe[key(case_id_glue, i)] == dataframe[key(case_id_glue, i + 1)]]
 
-    column_list = [key(activity_key, i) for i in range(len(list_activities))]
-    pattern = "".join(list_activities)
     # keep only rows that have the desired activities pattern
-
-    matches = dataframe[np.equal(dataframe[column_list].agg(''.join, axis=1), pattern)]
+    matches = dataframe
+    for i in range(len(list_activities)):
+        matches = matches[matches[key(activity_key, i)] == list_activities[i]]
     if len(matches) > sample_size:
         matches = matches.sample(n=sample_size)
 
-- 
2.43.0


From 6c2235bdb7dbd247bac549c7328ac92da303ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:28 +0000
Subject: [PATCH 138/151] fix: match only neighboring rows and compare
 activities in the disconnected performance spectrum of dataframes

---
 .../variants/dataframe_disconnected.py                | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
index 5fadae3..bed815d 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/dataframe_disconnected.py
@@ -34,7 +34,7 @@ class Parameters(Enum):
 
 
 def gen_patterns(pattern, length):
-    return ["".join(pattern[i:i + length]) for i in range(len(pattern) - (length - 1))]
+    return [tuple(pattern[i:i + length]) for i in range(len(pattern) - (length - 1))]
 
 
 def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int, parameters: Optional[Dict[Union[str, Parameters], Any]] = None) -> Dict[str, Any]:
@@ -77,6 +77,9 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
         dataframe = dataframe.sort_values([case_id_glue, timestamp_key, constants.DEFAULT_EVENT_INDEX_KEY])
     dataframe[timestamp_key] = dataframe[timestamp_key].astype(np.int64) / 10 ** 9
 
+    # position of the event in the (filtered and sorted) dataframe
+    position_key = "@@position"
+    dataframe[position_key] = np.arange(len(dataframe))
     all_patterns = [(len(list_activities) - i, gen_patterns(list_activities, len(list_activities) - i)) for i in
                     range(len(list_activities) - 1)]
 
@@ -99,9 +102,11 @@ def apply(dataframe: pd.DataFrame, list_activities: List[str], sample_size: int,
 
         for i in range(l - 1):
             df_merged = df_merged[df_merged[key(case_id_glue, i)] == df_merged[key(case_id_glue, i + 1)]]
+            # rows that became neighbors because of the dropped ones do not match
+            df_merged = df_merged[df_merged[key(position_key, i)] + 1 == df_merged[key(position_key, i + 1)]]
 
         column_list = [key(activity_key, i) for i in range(l)]
-        matches = df_merged[np.isin(df_merged[column_list].sum(axis=1), patterns)]
+        matches = df_merged[np.array([x in patterns for x in df_merged[column_list].itertuples(index=False, name=None)], dtype=bool)]
         points.extend([to_points(m, l) for m in matches.to_dict('records')])
         # drop rows of this match to not discover subsets of this match again
         dataframe = dataframe.drop([int(i) for indices in matches.index for i in indices[:-1]])
@@ -118,4 +123,4 @@ def shift_index(index, n):
     if n == 0:
         return list(index)
     nones = [None for _ in range(n)]
-    return list(index[n:]) + nones
+    return (list(index[n:]) + nones)[:len(index)]
-- 
2.43.0


From eaee33ade339f0868a4d79b03e42cecb589e418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:05 +0000
Subject: [PATCH 139/151] fix: merge the redo parts of a loop cut in the POWL
 miner

---
 pm4py/algo/discovery/powl/inductive/cuts/loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/discovery/powl/inductive/cuts/loop.py b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
index e9c5f6c..d37416d 100644
--- a/pm4py/algo/discovery/powl/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
@@ -36,6 +36,8 @@ class POWLLoopCut(LoopCut, ABC, Generic[T]):
         if g is None:
             return g
         else:
+            # POWL loops have a single redo part; the choice between several ones is found in the merged part
+            g = [g[0], set().union(*g[1:])]
             children = cls.project(obj, g, parameters)
             return OperatorPOWL(Operator.LOOP, children), children
 
-- 
2.43.0


From cececd78a0d0deceb1ad7fc26e64d5df060e9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:05 +0000
Subject: [PATCH 140/151] fix: keep the order transitive when nested partial
 orders are simplified

---
 pm4py/objects/powl/obj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/powl/obj.py b/pm4py/objects/powl/obj.py
index b296087..db56ad7 100644
--- a/pm4py/objects/powl/obj.py
+++ b/pm4py/objects/powl/obj.py
@@ -281,6 +281,8 @@ class StrictPartialOrder(POWL):
                 for node_2 in simplified_po.children:
                     if simplified_po.partial_order.is_edge(node_1, node_2):
                         res.partial_order.add_edge(node_1, node_2)
+        # orders through the nodes of a dissolved partial order
+        res.partial_order.add_transitive_edges()
         return res
 
     def add_edge(self, source, target):
-- 
2.43.0


From a97323216cc8162ea74129fb620e9c22abc18300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 141/151] fix: transitive order when a sequence is converted to
 POWL

---
 pm4py/objects/conversion/process_tree/variants/to_powl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/process_tree/variants/to_powl.py b/pm4py/objects/conversion/process_tree/variants/to_powl.py
index cf4b034..0ec4802 100644
--- a/pm4py/objects/conversion/process_tree/variants/to_powl.py
+++ b/pm4py/objects/conversion/process_tree/variants/to_powl.py
@@ -44,7 +44,8 @@ def apply_recursive(tree: ProcessTree, rec_depth=0) -> POWL:
 
     if tree.operator == PTOperator.SEQUENCE:
         for i in range(len(nodes)-1):
-            powl.order.add_edge(nodes[i], nodes[i+1])
+            for j in range(i+1, len(nodes)):
+                powl.order.add_edge(nodes[i], nodes[j])
 
     return powl
 
-- 
2.43.0


From 79c0b5caa497fae5b83ea551db6f5508e0785dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:17 +0000
Subject: [PATCH 142/151] fix: accept the parameter enumeration in the
 PTandLogGenerator and end its label duplication

---
 .../tree_generator/variants/ptandloggenerator.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 405615b..4efc35f 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -88,6 +88,9 @@ def apply(parameters: Optional[Dict[Union[str, Parameters], Any]] = None) -> obj
     if parameters is None:
         parameters = {}
 
+    # the parameters may be given by their name or by the enumeration
+    parameters = {(p if type(p) is str else p.value): parameters[p] for p in parameters}
+
     if not "mode" in parameters:
         parameters["mode"] = 20
     if not "min" in parameters:
@@ -204,19 +207,17 @@ class GeneratedTree(object):
                     if leaf not in duplicates:
                         possible_replacements.append(leaf)
             for leaf in duplicates:
-                i = 0
                 siblings = []
                 # determine sibling nodes (same parent)
                 p = leaf._parent
                 for child in p._children:
                     if child != leaf:
                         siblings.append(child)
-                # TODO Skaling? Original: 30times, my idea : percentage of duplicates * len(leaves)
-                while i < self.parameters["duplicate"] * len(leaves):
-                    replacement = random.choice(possible_replacements)
-                    if replacement not in siblings:
-                        replacement._label = leaf._label
-                        break
+                # leaves that can take over the label (the siblings of the leaf cannot)
+                candidates = [x for x in possible_replacements if x not in siblings]
+                if candidates:
+                    replacement = random.choice(candidates)
+                    replacement._label = leaf._label
 
     def add_node(self):
         leaves = self.tree._get_leaves()
-- 
2.43.0


From 56bc5c392e9630a775f5c838708a8de85e3e79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:17 +0000
Subject: [PATCH 143/151] fix: reduce process trees with equal nodes

---
 pm4py/algo/reduction/process_tree/variants/tree_tr_based.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
index fdcc6de..d10e08b 100644
--- a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
+++ b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
@@ -72,7 +72,8 @@ def apply(tree: ProcessTree, trace: Trace, parameters: Optional[Dict[Any, Any]]
 
     bottomup_nodes = bottomup.get_bottomup_nodes(tree)
     fps = footprints.get_all_footprints(tree)
-    fps = {id(x): y for x, y in fps.items()}
+    # equal nodes share their footprints
+    fps = {id(x): fps[x] for x in bottomup_nodes}
 
     return reduce(bottomup_nodes, fps, activities)
 
-- 
2.43.0


From 709d4226a8fbffd4469226b5a9bf3482c9975d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:48 +0000
Subject: [PATCH 144/151] fix: pass the timestamp key on when projecting
 dataframes (DECLARE, frequent segments)

---
 pm4py/algo/conformance/declare/variants/classic.py | 4 +++-
 pm4py/algo/discovery/declare/variants/classic.py   | 4 +++-
 pm4py/stats.py                                     | 2 +-
 pm4py/utils.py                                     | 5 ++++-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 8eb3618..c783d00 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -27,6 +27,7 @@ from collections import Counter
 class Parameters(Enum):
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
 
 
 def __check_existence(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]], trace_dict: Dict[str, List[Any]],
@@ -364,10 +365,11 @@ def apply(log: Union[EventLog, pd.DataFrame], model: Dict[str, Dict[Any, Dict[st
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
 
     ret = apply_list(projected_log, model, parameters=parameters)
 
diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index c6357f4..512ba03 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -28,6 +28,7 @@ import numpy as np
 
 class Parameters(Enum):
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
     CONSIDERED_ACTIVITIES = "considered_activities"
     MIN_SUPPORT_RATIO = "min_support_ratio"
@@ -501,6 +502,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
 
     allowed_templates = exec_utils.get_param_value(Parameters.ALLOWED_TEMPLATES, parameters, None)
 
@@ -511,7 +513,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     activities = exec_utils.get_param_value(Parameters.CONSIDERED_ACTIVITIES, parameters, None)
 
     if activities is None:
diff --git a/pm4py/stats.py b/pm4py/stats.py
index dfcde7e..e22e1f5 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -739,7 +739,7 @@ def get_frequent_trace_segments(log: Union[EventLog, pd.DataFrame], min_occ: int
     import pm4py.utils
     from prefixspan import PrefixSpan
 
-    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key)
+    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key, timestamp_key=timestamp_key)
     traces0 = PrefixSpan(projection).frequent(min_occ)
     traces = {}
     for x in traces0:
diff --git a/pm4py/utils.py b/pm4py/utils.py
index e15ad22..5ce2521 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -425,7 +425,7 @@ def parse_event_log_string(traces: Collection[str], sep: str = ",",
     return dataframe
 
 
-def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None) -> \
+def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None, timestamp_key=None) -> \
 List[List[str]]:
     """
     Project the event log on a specified event attribute. The result is a list, containing a list for each case:
@@ -445,6 +445,7 @@ List[List[str]]:
     :param log: Event log / Pandas dataframe
     :param attribute_key: The attribute to be used
     :param case_id_key: The attribute to be used as case identifier
+    :param timestamp_key: The attribute to be used as timestamp
     :rtype: ``List[List[str]]``
 
     .. code-block:: python3
@@ -462,6 +463,8 @@ List[List[str]]:
         parameters = {from_pandas.Parameters.ACTIVITY_KEY: attribute_key}
         if case_id_key is not None:
             parameters[from_pandas.Parameters.CASE_ID_KEY] = case_id_key
+        if timestamp_key is not None:
+            parameters[from_pandas.Parameters.TIMESTAMP_KEY] = timestamp_key
         it = from_pandas.apply(log, parameters=parameters)
         for trace in it:
             output.append([x[xes_constants.DEFAULT_NAME_KEY] if xes_constants.DEFAULT_NAME_KEY is not None else None for x in trace])
-- 
2.43.0


From a281404c09ec5c488e4e6022563345b17403a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:48 +0000
Subject: [PATCH 145/151] fix: use the given activity key when composing
 parallel approximated alignments

---
 .../process_tree/variants/approximated/matrix_lp.py           | 2 +-
 .../alignments/process_tree/variants/approximated/original.py | 2 +-
 .../process_tree/variants/approximated/utilities.py           | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index 9ca5770..d95aa22 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -1250,7 +1250,7 @@ def __approximate_alignment_on_parallel(pt: ProcessTree, trace: Trace, a_sets: D
     # compose alignments from subtree alignments
     res = []
     for trace_part in trace_parts:
-        activities_to_cover = trace_to_list_of_str(trace_part[1])
+        activities_to_cover = trace_to_list_of_str(trace_part[1], activity_key)
         activities_covered_so_far = []
         alignment = alignments_per_subtree[trace_part[0]]
         while activities_to_cover != activities_covered_so_far:
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
index 03a0189..4181bfc 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/original.py
@@ -812,7 +812,7 @@ def __approximate_alignment_on_parallel(pt: ProcessTree, trace: Trace, a_sets: D
     # compose alignments from subtree alignments
     res = []
     for trace_part in trace_parts:
-        activities_to_cover = trace_to_list_of_str(trace_part[1])
+        activities_to_cover = trace_to_list_of_str(trace_part[1], activity_key)
         activities_covered_so_far = []
         alignment = alignments_per_subtree[trace_part[0]]
         while activities_to_cover != activities_covered_so_far:
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
index 6dbcc03..cf0f16b 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/utilities.py
@@ -64,8 +64,8 @@ def concatenate_traces(t1: Trace, t2: Trace) -> Trace:
     return t1
 
 
-def trace_to_list_of_str(t: Trace) -> List[str]:
-    return [e[DEFAULT_NAME_KEY] for e in t]
+def trace_to_list_of_str(t: Trace, activity_key: str = DEFAULT_NAME_KEY) -> List[str]:
+    return [e[activity_key] for e in t]
 
 
 def list_of_str_to_trace(activities: List[str]) -> Trace:
-- 
2.43.0


From 34c4b2e86ac055819aaced8aaa439c90541612b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:42 +0000
Subject: [PATCH 146/151] fix: lead and cycle time of an event starting when
 the previous one ends

---
 pm4py/objects/log/util/interval_lifecycle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/interval_lifecycle.py b/pm4py/objects/log/util/interval_lifecycle.py
index 0e5ea8c..c9ca061 100644
--- a/pm4py/objects/log/util/interval_lifecycle.py
+++ b/pm4py/objects/log/util/interval_lifecycle.py
@@ -237,7 +237,7 @@ def assign_lead_cycle_time(log, parameters=None):
 
                 approx_partial_cycle_time = approx_partial_cycle_time + approx_bh_duration
                 approx_partial_lead_time = approx_partial_lead_time + approx_bh_duration
-            elif st_seconds < max_et_seconds and et_seconds > max_et_seconds:
+            elif st_seconds <= max_et_seconds and et_seconds > max_et_seconds:
                 bh = BusinessHours(max_et, et,
                                                   business_hour_slots=business_hours_slots)
                 approx_bh_duration = bh.get_seconds()
-- 
2.43.0


From 55eb0b0f4bda2de299ac6c951a844da04fb47375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:15 +0000
Subject: [PATCH 147/151] fix: interval logs declare the start timestamp
 attribute they use

---
 pm4py/objects/log/util/interval_lifecycle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/interval_lifecycle.py b/pm4py/objects/log/util/interval_lifecycle.py
index c9ca061..041259e 100644
--- a/pm4py/objects/log/util/interval_lifecycle.py
+++ b/pm4py/objects/log/util/interval_lifecycle.py
@@ -74,7 +74,7 @@ def to_interval(log, parameters=None):
         new_log = EventLog(attributes=copy(log.attributes), extensions=copy(log.extensions), classifiers=copy(log.classifiers),
             omni_present=copy(log.omni_present), properties=copy(log.properties))
         new_log.attributes["PM4PY_TYPE"] = "interval"
-        new_log.properties[constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = xes.DEFAULT_START_TIMESTAMP_KEY
+        new_log.properties[constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = start_timestamp_key
 
         for trace in log:
             new_trace = Trace()
-- 
2.43.0


From 805721b31b73c49ea0980d35c2aa472c5f729a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:14 +0000
Subject: [PATCH 148/151] fix: merge only near intervals when detecting batches

---
 pm4py/algo/discovery/batches/utils/detection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/batches/utils/detection.py b/pm4py/algo/discovery/batches/utils/detection.py
index ea8d2cf..1dc11f8 100644
--- a/pm4py/algo/discovery/batches/utils/detection.py
+++ b/pm4py/algo/discovery/batches/utils/detection.py
@@ -18,7 +18,6 @@ from enum import Enum
 from typing import Tuple, List, Any, Set, Optional, Dict, Union
 
 from pm4py.util import exec_utils
-import heapq
 from copy import copy
 
 
@@ -84,8 +83,8 @@ def __merge_near_intervals(intervals: List[Tuple[float, float, Set[Any]]], max_a
                 del intervals[i + 1]
                 # remove the i interval
                 del intervals[i]
-                # add the new interval to the list
-                heapq.heappush(intervals, new_interval)
+                # add the new interval to the list (that stays sorted)
+                intervals.insert(i, new_interval)
                 # set the variable continue_cycle to True
                 continue_cycle = True
                 i = i - 1
@@ -153,7 +152,7 @@ def __detect_single(events: List[Tuple[float, float, str]], parameters: Optional
 
     intervals = [(e[0], e[1], {copy(e)}) for e in
                  events]
-    heapq.heapify(intervals)
+    intervals.sort()
     intervals = __merge_overlapping_intervals(intervals)
     intervals = __merge_near_intervals(intervals, merge_distance)
     batches = [x for x in intervals if len(x[2]) >= min_batch_size]
-- 
2.43.0


From b2b6fa27f2618a3a799c4a44648aba8bacc3f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:53 +0000
Subject: [PATCH 149/151] fix: earth mover distance of languages with the empty
 trace

---
 pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
index 0d622c9..3ec552b 100644
--- a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
+++ b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
@@ -42,7 +42,8 @@ def normalized_levensthein(s1, s2):
     dist
         Distance
     """
-    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2)))
+    # two empty strings are identical
+    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2), 1))
 
 
 def get_act_correspondence(activities, parameters=None):
-- 
2.43.0


From e80aff599d8ef6dce8d260b7de1a33506912c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:11 +0000
Subject: [PATCH 150/151] fix: pass the parameters on when preprocessing for
 trace-based correlation mining

---
 .../algo/discovery/correlation_mining/variants/trace_based.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 398f31f..e09e83b 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -58,7 +58,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
         Performance DFG (containing the estimated performance for the arcs)
     """
     traces_list, trace_grouped_list, activities, activities_counter = preprocess_log(log, activities=None,
-                                                                                     activities_counter=None)
+                                                                                     activities_counter=None,
+                                                                                     parameters=parameters)
 
     PS_matrix, duration_matrix = get_PS_duration_matrix(activities, trace_grouped_list, parameters=parameters)
 
-- 
2.43.0


From 86071f7a427f2a597f5c3ee340afb7b7909c52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:09 +0000
Subject: [PATCH 151/151] fix: laplace trace variant query on current Python
 versions

---
 .../algo/anonymization/trace_variant_query/variants/laplace.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
index 593177c..36f3fda 100644
--- a/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
+++ b/pm4py/algo/anonymization/trace_variant_query/variants/laplace.py
@@ -78,7 +78,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     show_progress_bar = exec_utils.get_param_value(Parameters.SHOW_PROGRESS_BAR, parameters, True)
     progress = None
-    if importlib.util.find_loader("tqdm") and show_progress_bar:
+    if importlib.util.find_spec("tqdm") and show_progress_bar:
         from tqdm.auto import tqdm
         progress = tqdm(total=k, desc="prefix tree construction, completed prefixes of length :: ")
 
-- 
2.43.0

