From 3433660ec6f15b96be2285aa354dfbd59e6fcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 01/30] fix: random start with one region yields a label array,
 not a dict

generate_initial_sol(adj, 1) yielded a dict, so every heuristic fit with
n_regions=1 and no initial labels crashed, and a disconnected map was not
rejected.
---
 region/util.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..927d58b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,9 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
 
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
-- 
2.43.0


From 2fcc829769cd404f70d296185815449ff4983d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 02/30] fix: reactive tabu no longer crashes or mixes up
 components and fits

A fit without any possible move, a fractional tabu list length and random
moves out of an exhausted or outdated list of moves crashed or broke regions.
The list of visited solutions survived from one component or fit to the next,
so labels of another component could be returned. The best solution found is
returned now.
---
 region/p_regions/azp.py | 54 +++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..c57d4f6 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -724,6 +724,23 @@ class AZPTabu(AZP, abc.ABC):
             self.tabu.append(reverse_move)
             return True
 
+    def _is_possible(self, move, labels, adj):
+        """
+        Return `True` if `move` can be made without emptying or disconnecting
+        the donor region and without disconnecting the recipient region.
+        """
+        if labels[move.area] != move.old_region:
+            return False
+        if move.new_region not in labels[neighbors(adj, move.area)]:
+            return False
+        if count(labels, move.old_region) <= 1:
+            return False
+        return is_connected(
+            sub_adj_matrix(
+                adj,
+                np.where(labels == move.old_region)[0],
+                wo_nodes=move.area))
+
     def reset_tabu(self, tabu_len=None):
         tabu_len = self.tabu.maxlen if tabu_len is None else tabu_len
         self.tabu = deque([], tabu_len)
@@ -928,6 +945,10 @@ class AZPReactiveTabu(AZPTabu):
             Refer to the return value in :meth:`AZP._azp_connected_component`.
         """
         self.reset_tabu(1)
+        # forget what was learned in other components or earlier fits
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         # if there is only one region in the initial solution, just return it.
         distinct_regions = list(np.unique(initial_labels))
         if len(distinct_regions) == 1:
@@ -936,6 +957,7 @@ class AZPReactiveTabu(AZPTabu):
         #  step 2: make a list of the M regions
         labels = initial_labels
 
+        best_labels = labels.copy()
         it_since_tabu_len_changed = 0
         obj_val_start = float("inf")
         # step 12: Repeat steps 3-11 until either no further improvements are
@@ -945,6 +967,7 @@ class AZPReactiveTabu(AZPTabu):
             if not obj_val_end < obj_val_start:
                 break  # step 12
             obj_val_start = obj_val_end
+            best_labels = labels.copy()
 
             it_since_tabu_len_changed += 1
             # step 3: Define the list of all possible moves that are not tabu
@@ -973,6 +996,8 @@ class AZPReactiveTabu(AZPTabu):
                 if obj_val_diff < best_objval_diff:
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
+            if best_move is None:
+                break  # there is no move left
             # step 5: Make the move if possible. Update the tabu status.
             if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
@@ -1004,13 +1029,17 @@ class AZPReactiveTabu(AZPTabu):
                         # random moves, P = 1 + self.avg_it_until_rep/2, and
                         # update tabu to preclude a return to the previous
                         # state.
-                        # we save the labels such that we can access it if
-                        # this step yields a poor solution.
-                        last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
                         possible_moves.pop(best_move_index)
                         for _ in range(p):
+                            # earlier moves can make later ones impossible
+                            possible_moves = [
+                                move for move in possible_moves
+                                if self._is_possible(move, labels, adj)
+                            ]
+                            if not possible_moves:
+                                break
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
@@ -1023,7 +1052,10 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    # (the length is an integer, so it increases by at least 1)
+                    self.tabu = deque(
+                        self.tabu,
+                        max(int(1.1 * self.tabu.maxlen), self.tabu.maxlen + 1))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
@@ -1035,12 +1067,8 @@ class AZPReactiveTabu(AZPTabu):
 
             # step 10: Save the zoning system and go to step 12.
             self.visited.append(tuple(labels))
-            last_step = 10
-
-        if last_step == 10:
-            try:
-                return np.array(self.visited[-2])
-            except IndexError:
-                return np.array(self.visited[-1])
-        # if step 11 was the last one, the result is in last_step[1]
-        return np.array(last_step[1])
+
+        # the last iteration may have yielded a poor solution
+        if self.objective_func(labels, attr) < obj_val_start:
+            best_labels = labels
+        return best_labels
-- 
2.43.0


From 8c7b75f4c5c19c9a691096a9a43f1057238392d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 03/30] fix: keep areas and attributes aligned in
 fit_from_networkx

The adjacency matrix followed the graph's node order while attributes,
thresholds and initial labels are sorted by node, so areas got each other's
attributes. Initial labels arrived as a column and crashed the fit.
---
 region/max_p_regions/exact.py      |  2 +-
 region/max_p_regions/heuristics.py |  2 +-
 region/p_regions/azp.py            | 10 ++++++----
 region/p_regions/exact.py          |  2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..3718b63 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -330,7 +330,7 @@ class MaxPRegionsExact:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..d7077ed 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -290,7 +290,7 @@ class MaxPRegionsHeu:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c57d4f6..60fac6e 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -186,10 +186,11 @@ class AZP:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -570,10 +571,11 @@ class AZPSimulatedAnnealing:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).flatten()
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..b962531 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -248,7 +248,7 @@ class PRegionsExact:
             See the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, nodelist=sorted(graph))
         attr = array_from_graph_or_dict(graph, attr)
         self.fit_from_scipy_sparse_matrix(
             adj, attr, n_regions, method=method, solver=solver, metric=metric)
-- 
2.43.0


From 482967d8506ab28cb5e502ccf09b00d1681ab18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:41 +0000
Subject: [PATCH 04/30] fix: basic tabu terminates on ties and makes only
 possible moves

The repetition limit was checked only when no equivalent move existed, so ties
cycled for ever. Aspiration moves could empty or disconnect a region, and the
best move computed before an aspiration move was made after it.
---
 region/p_regions/azp.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 60fac6e..fa34ac7 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -814,12 +814,11 @@ class AZPBasicTabu(AZPTabu):
         labels = initial_clustering
 
         visited = []
-        stop = False
         while True:
             # added termination condition (not in Openshaw & Rao (1995))
             label_tup = tuple(labels)
             if visited.count(label_tup) >= self.reps_before_termination:
-                stop = True
+                break
 
             visited.append(label_tup)
 
@@ -855,7 +854,7 @@ class AZPBasicTabu(AZPTabu):
                 # (termed an aspiration move)
                 improving_tabus = [
                     move for move in self.tabu
-                    if labels[move.area] == move.old_region
+                    if self._is_possible(move, labels, adj)
                     and self.objective_func.update(move.area, move.new_region,
                                                    labels, attr) < 0
                 ]
@@ -865,16 +864,12 @@ class AZPBasicTabu(AZPTabu):
                     if self.allow_move_strategy(aspiration_move.area, aspiration_move.new_region, labels):
                     
                         self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
-                        
-                if stop:
-                        break
+
                 else:
                     # step 4: If there is no improving move and no aspirational
                     # move, then make the best move even if it is nonimproving
                     # (that is, results in a worse value of the objective
                     # function).
-                    if stop:
-                        break
                     if best_move is not None and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                         self._make_move(best_move.area, best_move.new_region, labels, adj)
         return labels
-- 
2.43.0


From a29f9c006798a5a816530db99200fc9f36f71ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 05/30] fix: estimators draw from their own random generator

Creating an estimator reseeded the process-wide generator, so estimators
disturbed each other, the caller's random stream and fits in other threads,
and a seeded fit depended on what else had been created or run.
---
 region/max_p_regions/heuristics.py | 10 +++++-----
 region/p_regions/azp.py            | 19 +++++++++++-------
 region/p_regions/azp_util.py       |  6 ++++--
 region/util.py                     | 32 ++++++++++++++++++++----------
 4 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d7077ed..36ee67c 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -33,7 +33,7 @@ class MaxPRegionsHeu:
         self.labels_ = None
         self.local_search = local_search
         self.random_state = random_state
-        random.seed(random_state)
+        self._rng = random.Random(random_state)
         self.metric = raise_distance_metric_not_set
 
     def fit_from_scipy_sparse_matrix(
@@ -374,7 +374,7 @@ class MaxPRegionsHeu:
         assigned_areas = []
 
         while unassigned_areas:
-            area = pop_randomly_from(unassigned_areas)
+            area = pop_randomly_from(unassigned_areas, self._rng)
             assigned_areas.append(area)
             if (spatially_extensive_attr[area] >= threshold).all():
                 partition.append({area})
@@ -437,7 +437,7 @@ class MaxPRegionsHeu:
             area for area in candidates
             if candidates[area] == min(candidates.values())
         ]
-        return random_element_from(best_candidates)
+        return random_element_from(best_candidates, self._rng)
 
     def assign_enclaves(self, partition, enclave_areas, neigh_dict, attr):
         """
@@ -469,7 +469,7 @@ class MaxPRegionsHeu:
                 area for area in enclave_areas if any(
                     neigh not in enclave_areas for neigh in neigh_dict[area])
             ]
-            area = pop_randomly_from(neighbors_of_assigned)
+            area = pop_randomly_from(neighbors_of_assigned, self._rng)
             neigh_regions_idx = []
             for neigh in neigh_dict[area]:
                 try:
@@ -517,4 +517,4 @@ class MaxPRegionsHeu:
             idx for idx in dissim_per_idx
             if dissim_per_idx[idx] == minimum_dissim
         ]
-        return random_element_from(best_idxs)
+        return random_element_from(best_idxs, self._rng)
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index fa34ac7..5ef23d8 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -43,7 +43,7 @@ class AZP:
         self.n_regions = None
         self.labels_ = None
         self.random_state = random_state
-        random.seed(self.random_state)
+        self._rng = random.Random(self.random_state)
 
         if isinstance(allow_move_strategy, AllowMoveStrategy):
             self.allow_move_strategy = allow_move_strategy
@@ -92,7 +92,8 @@ class AZP:
             assert_feasible(initial_labels, adj, n_regions)
             initial_labels_gen = separate_components(adj, initial_labels)
         else:
-            initial_labels_gen = generate_initial_sol(adj, n_regions)
+            initial_labels_gen = generate_initial_sol(
+                adj, n_regions, self._rng)
         labels = -np.ones(adj.shape[0])
         for labels_comp in initial_labels_gen:
             comp_idx = np.where(labels_comp != -1)[0]
@@ -338,7 +339,7 @@ class AZP:
 
             while distinct_regions:
                 # step 3: select & remove any region K at random from this list
-                recipient = pop_randomly_from(distinct_regions)
+                recipient = pop_randomly_from(distinct_regions, self._rng)
                 while True:
                     # step 4: identify a set of zones bordering on members of
                     # region K that could be moved into region K without
@@ -362,7 +363,7 @@ class AZP:
                     # of candidate zones, and return to step 4 or else repeat
                     # step 5 until the list is exhausted.
                     while candidates:
-                        cand = pop_randomly_from(candidates)
+                        cand = pop_randomly_from(candidates, self._rng)
                         if self.allow_move_strategy(cand, recipient, labels):
                             donor = labels[cand]
 
@@ -619,15 +620,18 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
+        rng = random.Random(self.random_state)
         self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
-            sa_moves_term=self.sa_moves_term)
+            sa_moves_term=self.sa_moves_term,
+            rng=rng)
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
             random_state=self.random_state)
+        self.azp._rng = rng
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
@@ -859,7 +863,8 @@ class AZPBasicTabu(AZPTabu):
                                                    labels, attr) < 0
                 ]
                 if improving_tabus:
-                    aspiration_move = random_element_from(improving_tabus)
+                    aspiration_move = random_element_from(
+                        improving_tabus, self._rng)
                     
                     if self.allow_move_strategy(aspiration_move.area, aspiration_move.new_region, labels):
                     
@@ -1037,7 +1042,7 @@ class AZPReactiveTabu(AZPTabu):
                             ]
                             if not possible_moves:
                                 break
-                            move = possible_moves.pop(random.randrange(len(possible_moves)))
+                            move = pop_randomly_from(possible_moves, self._rng)
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
                         continue
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..40c34d3 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -71,7 +71,8 @@ class AllowMoveAZP(AllowMoveStrategy):
 
 
 class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
-    def __init__(self, init_temperature, sa_moves_term=float("inf")):
+    def __init__(self, init_temperature, sa_moves_term=float("inf"),
+                 rng=None):
         self.observers_min_sa_moves = []
         self.observers_move_made = []
         self.t = init_temperature
@@ -81,6 +82,7 @@ class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
                              "integer.")
         self.sa_moves_term = sa_moves_term
         self.sa = 0  # number of SA-moves
+        self.rng = rng  # source of randomness (None: the random module)
         super().__init__()
 
     def __call__(self, moving_area, new_region, labels):
@@ -93,7 +95,7 @@ class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
         else:
 
             prob = math.exp(-diff / self.t)
-            move_allowed = random.random() < prob
+            move_allowed = (self.rng or random).random() < prob
             if move_allowed:
                 self.notify_move_made()
                 self.sa += 1
diff --git a/region/util.py b/region/util.py
index 927d58b..21ef078 100755
--- a/region/util.py
+++ b/region/util.py
@@ -537,7 +537,8 @@ def make_move(moving_area, new_label, labels):
     labels[moving_area] = new_label
 
 
-def distribute_regions_among_components(component_labels, n_regions):
+def distribute_regions_among_components(component_labels, n_regions,
+                                        rng=random):
     r"""
     Parameters
     ----------
@@ -556,6 +557,9 @@ def distribute_regions_among_components(component_labels, n_regions):
 
     n_regions : int
 
+    rng : :class:`random.Random`, default: the `random` module
+        The source of randomness.
+
     Returns
     -------
     result_dict : Dict[int, int]
@@ -577,14 +581,14 @@ def distribute_regions_among_components(component_labels, n_regions):
     # distribute the rest of the regions to random components with bigger
     # components being likely to get more regions assigned to them
     while n_regions_to_distribute > 0:
-        position = random.randrange(len(component_labels))
+        position = rng.randrange(len(component_labels))
         picked_comp = component_labels.pop(position)
         result_dict[picked_comp] += 1
         n_regions_to_distribute -= 1
     return result_dict
 
 
-def generate_initial_sol(adj, n_regions):
+def generate_initial_sol(adj, n_regions, rng=random):
     """
     Generate a random initial clustering.
 
@@ -594,6 +598,9 @@ def generate_initial_sol(adj, n_regions):
 
     n_regions : int
 
+    rng : :class:`random.Random`, default: the `random` module
+        The source of randomness.
+
     Yields
     ------
     region_labels : :class:`numpy.ndarray`
@@ -619,7 +626,8 @@ def generate_initial_sol(adj, n_regions):
             "less than the number of connected components "
             "({}).".format(n_regions, n_comps)
         )
-    n_regions_per_comp = distribute_regions_among_components(comp_labels, n_regions)
+    n_regions_per_comp = distribute_regions_among_components(
+        comp_labels, n_regions, rng)
 
     print("n_regions_per_comp", n_regions_per_comp)
     regions_built = 0
@@ -631,7 +639,7 @@ def generate_initial_sol(adj, n_regions):
         comp_adj = adj[in_comp]
         comp_adj = comp_adj[:, in_comp]
         region_labels_comp = (
-            _randomly_divide_connected_graph(comp_adj, n_regions_in_comp)
+            _randomly_divide_connected_graph(comp_adj, n_regions_in_comp, rng)
             + regions_built
         )
         regions_built += n_regions_in_comp
@@ -640,7 +648,7 @@ def generate_initial_sol(adj, n_regions):
         yield region_labels
 
 
-def _randomly_divide_connected_graph(adj, n_regions):
+def _randomly_divide_connected_graph(adj, n_regions, rng=random):
     """
     Divide the provided connected graph into `n_regions` regions.
 
@@ -650,6 +658,8 @@ def _randomly_divide_connected_graph(adj, n_regions):
         Adjacency matrix.
     n_regions : int
         The desired number of clusters. Must be > 0 and <= number of nodes.
+    rng : :class:`random.Random`, default: the `random` module
+        The source of randomness.
 
     Returns
     -------
@@ -689,7 +699,7 @@ def _randomly_divide_connected_graph(adj, n_regions):
         for __ in range(5):
             mst_copy = mst.copy()
             nonzero_i, nonzero_j = mst_copy.nonzero()
-            random_position = random.randrange(len(nonzero_i))
+            random_position = rng.randrange(len(nonzero_i))
             i, j = nonzero_i[random_position], nonzero_j[random_position]
             mst_copy[i, j] = 0
             mst_copy.eliminate_zeros()
@@ -845,13 +855,13 @@ def separate_components(adj, labels):
         yield region_labels
 
 
-def random_element_from(lst):
-    random_position = random.randrange(len(lst))
+def random_element_from(lst, rng=random):
+    random_position = rng.randrange(len(lst))
     return lst[random_position]
 
 
-def pop_randomly_from(lst):
-    random_position = random.randrange(len(lst))
+def pop_randomly_from(lst, rng=random):
+    random_position = rng.randrange(len(lst))
     return lst.pop(random_position)
 
 
-- 
2.43.0


From 5a127dccb085ea4e58e37857c7514d5d9b9828d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 06/30] fix: simulated annealing forgets the solutions of
 earlier fits

The list of visited solutions and the move flag survived a fit, so a second
fit could stop early or return after a single step.
---
 region/p_regions/azp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 5ef23d8..89cc1a7 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -620,6 +620,9 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
+        # forget the moves and solutions of earlier fits
+        self.move_made = False
+        self.visited = []
         rng = random.Random(self.random_state)
         self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
-- 
2.43.0


From df3bb7850223ef8e68b1fcbb058caa582885c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 07/30] fix: max-p heuristic leaves the local search as it was
 and uses it fully

Every fit wrapped the move strategy of the caller's local search once more,
so a refit crashed, and the search ran once per pair of partitions while
publishing unfinished labels. The wrapper reported a frozen objective value,
which stopped the local search after one pass, simulated annealing ignored the
threshold, and the sign checks compared booleans with zero. An unseeded local
search now shares the estimator's generator.
---
 region/max_p_regions/heuristics.py | 45 +++++++++++++++++-------------
 region/p_regions/azp.py            | 12 +++++++-
 region/p_regions/azp_util.py       |  7 ++---
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 36ee67c..837a9c9 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -1,3 +1,4 @@
+import copy
 import random
 
 import networkx as nx
@@ -100,27 +101,31 @@ class MaxPRegionsHeu:
             feasible_partitions.append(
                 self.assign_enclaves(partition, enclaves, areas_dict, attr))
 
+        # local search phase
+        if self.local_search is None:
+            local_search = AZP()
+        else:
+            # work on a copy as the caller's object must not keep a strategy
+            # which belongs to this fit
+            local_search = copy.copy(self.local_search)
+        if getattr(local_search, "random_state", None) is None:
+            local_search._rng = self._rng
+        local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            spatially_extensive_attr, threshold,
+            local_search.allow_move_strategy)
         for partition in feasible_partitions:
-
-            # local search phase
-            if self.local_search is None:
-                self.local_search = AZP()
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
-            for partition in feasible_partitions:
-                self.local_search.fit_from_scipy_sparse_matrix(
-                    adj,
-                    attr,
-                    max_p,
-                    initial_labels=array_from_region_list(partition),
-                    objective_func=objective_func)
-                partition = self.local_search.labels_
-                obj_value = objective_func(partition, attr)
-                if obj_value < best_obj_value:
-                    best_obj_value = obj_value
-                    best_partition = partition
-            self.labels_ = best_partition
+            local_search.fit_from_scipy_sparse_matrix(
+                adj,
+                attr,
+                max_p,
+                initial_labels=array_from_region_list(partition),
+                objective_func=objective_func)
+            partition = local_search.labels_
+            obj_value = objective_func(partition, attr)
+            if obj_value < best_obj_value:
+                best_obj_value = obj_value
+                best_partition = partition
+        self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
     fit.__doc__ = "Alias for :meth:`fit_from_scipy_sparse_matrix`.\n\n" \
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 89cc1a7..0a3ad54 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -456,6 +457,8 @@ class AZPSimulatedAnnealing:
         self.reps_before_termination = repetitions_before_termination
 
         self.random_state = random_state
+        # set by MaxPRegionsHeu to share its source of randomness
+        self._rng = None
 
         self.n_regions = None
 
@@ -623,11 +626,18 @@ class AZPSimulatedAnnealing:
         # forget the moves and solutions of earlier fits
         self.move_made = False
         self.visited = []
-        rng = random.Random(self.random_state)
+        rng = self._rng or random.Random(self.random_state)
+        threshold_strategy = self.allow_move_strategy
         self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term,
             rng=rng)
+        if isinstance(threshold_strategy, AllowMoveAZPMaxPRegions):
+            # local search of MaxPRegionsHeu: keep respecting the threshold
+            self.allow_move_strategy = AllowMoveAZPMaxPRegions(
+                threshold_strategy.spatially_extensive_attr_all,
+                threshold_strategy.threshold,
+                self.allow_move_strategy)
         self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
         self.allow_move_strategy.register_move_made(self.move_made_alert)
 
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 40c34d3..19883bb 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -179,15 +179,14 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
+        # the decorated strategy keeps track of the objective value
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -195,7 +194,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From 28dd4e8ef0beafb83c42fa506ccb1d1a96d9753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 08/30] fix: center objective evaluates moves without touching
 the labels

update() wrote the tentative assignment into the caller's array (visible to
others, and left behind when the metric or center raised) and reduced only the
two regions involved, which is wrong for reductions other than the sum.
---
 region/objective_function.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..aba92c0 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -144,22 +144,6 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
             axis=0)
 
     def update(self, moving_area, recipient_region, labels, attr):
-        donor_region = labels[moving_area]
-
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-
-        labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
-        labels[moving_area] = donor_region
-
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
-
-        return diff
+        labels_after = labels.copy()
+        labels_after[moving_area] = recipient_region
+        return self(labels_after, attr) - self(labels, attr)
-- 
2.43.0


From d663fe359b28b7f21a316514adf19eeeeaa35887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 09/30] fix: adjacency built from a dict does not depend on
 neighbor order

The unsorted csr indices kept the order in which neighbors were delivered, so
a seeded fit gave different results for the same map.
---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 21ef078..ff22748 100755
--- a/region/util.py
+++ b/region/util.py
@@ -119,7 +119,10 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    # make the result independent of the order in which neighbors were passed
+    adj.sort_indices()
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From 1ee0e5a144c9a80892a559793f2f8887679c77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 10/30] fix: exact p-regions measures dissimilarity between
 attribute rows

The rows were reshaped to columns, so with several attributes per area the
metric returned a matrix and the objective was not the sum of dissimilarities.
---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index b962531..9301aa6 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, -1),  # reshaping to...
+            attr[j].reshape(1, -1))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From adcce797379e70d8c8a8b49250711ad2b0975fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 11/30] fix: exact p-regions models admit regions of n_areas -
 n_regions + 1 areas

The models allowed at most n_areas - n_regions areas (flow) or orders (order,
tree) per region: flow missed optima with one large region, and requests for
(almost) as many regions as areas were infeasible or crashed.
---
 region/p_regions/exact.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 9301aa6..45223fe 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -328,6 +328,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
+    max_size = n_areas - n_regions + 1  # maximum number of areas per region
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
@@ -386,7 +387,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= y[i, k] - max_size * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
@@ -439,7 +440,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
@@ -525,6 +526,7 @@ def _tree(adj, attr, n_regions, solver, metric):
     I = list(range(n_areas))  # index for areas
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
+    max_size = n_areas - n_regions + 1  # maximum number of areas per region
     d = {
         (i, j): metric(
             attr[i].reshape(1, -1),  # reshaping to...
@@ -565,12 +567,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + max_size * x[i, j] \
+                    + (max_size - 2) * x[j, i] \
+                    <= max_size - 1
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= max_size
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 0dfe7383847517261bcd0644e7e5e7ef2c2e18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 12/30] fix: exact p-regions never publishes labels the solver
 did not prove optimal

The solver's status was ignored, values like 0.9999999 counted as 0, areas
without a region silently got region 0, and the tree model merged regions with
identical areas (t is free there) or crashed. Labels are now read from the
selected links and checked before they are published.
---
 region/p_regions/exact.py | 67 +++++++++++++--------------------
 region/util.py            | 78 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 104 insertions(+), 41 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 45223fe..1f9d56d 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -7,10 +7,11 @@ import networkx as nx
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
-from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
-    get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+from region.util import array_from_assignments, array_from_df_col,\
+    array_from_dict_values, array_from_graph_or_dict, array_from_region_list,\
+    assert_feasible, check_solver, copy_func, get_metric_function, is_one,\
+    raise_distance_metric_not_set, scipy_sparse_matrix_from_dict,\
+    scipy_sparse_matrix_from_w, solve_to_optimality, w_from_gdf
 
 
 class PRegionsExact:
@@ -103,8 +104,9 @@ class PRegionsExact:
             "tree": _tree
         }[method.lower()]
 
-        result_dict = opt_func(adj, attr, n_regions, solver, metric)
-        self.labels_ = result_dict
+        result = opt_func(adj, attr, n_regions, solver, metric)
+        assert_feasible(result, adj, n_regions)
+        self.labels_ = result
         self.n_regions = n_regions
         self.method = method
         self.metric = metric
@@ -402,14 +404,10 @@ def _flow(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
-    result = np.zeros(n_areas)
-    for i in I:
-        for k in K:
-            if y[i, k].varValue == 1:
-                result[i] = k
-    return result
+    solve_to_optimality(prob, solver)
+    return array_from_assignments(
+        n_areas,
+        ((i, k) for i in I for k in K if is_one(y[i, k])))
 
 
 def _order(adj, attr, n_regions, solver, metric):
@@ -488,15 +486,10 @@ def _order(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
-    result = np.zeros(n_areas)
-    for i in I:
-        for k in K:
-            for o in O:
-                if x[i, k, o].varValue == 1:
-                    result[i] = k
-    return result
+    solve_to_optimality(prob, solver)
+    return array_from_assignments(
+        n_areas,
+        ((i, k) for i in I for k in K for o in O if is_one(x[i, k, o])))
 
 
 def _tree(adj, attr, n_regions, solver, metric):
@@ -580,21 +573,13 @@ def _tree(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
-
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
-    result = array_from_region_list(regions)
-    return result
+    solve_to_optimality(prob, solver)
+
+    # areas connected by selected links belong to the same region (t can not be
+    # used as it may be 1 also for areas in different regions if they have
+    # identical attributes)
+    links = [(i, j) for i in I for j in neighbors(adj, i) if is_one(x[i, j])]
+    forest = nx.Graph(links)
+    forest.add_nodes_from(I)
+    return array_from_region_list(
+        [sorted(region) for region in nx.connected_components(forest)])
diff --git a/region/util.py b/region/util.py
index ff22748..856a155 100755
--- a/region/util.py
+++ b/region/util.py
@@ -920,3 +920,81 @@ def get_solver_instance(solver_string):
     }[solver_string.lower()]
     solver_instance = solver()
     return solver_instance
+
+
+def solve_to_optimality(prob, solver_string):
+    """
+    Solve an optimization problem.
+
+    Parameters
+    ----------
+    prob : :class:`pulp.LpProblem`
+
+    solver_string : str
+        Refer to the `solver` argument in
+        :meth:`region.p_regions.exact.PRegionsExact.fit_from_scipy_sparse_matrix`.
+
+    Raises
+    ------
+    exc : RuntimeError
+        A `RuntimeError` is raised if the solver did not find an optimum, e.g.
+        because the problem is infeasible or because the solver was stopped.
+    """
+    prob.solve(get_solver_instance(solver_string))
+    status = pulp.LpStatus[prob.status]
+    if status != "Optimal":
+        raise RuntimeError(
+            "The solver did not find an optimum (status: {}).".format(status)
+        )
+
+
+def is_one(variable):
+    """
+    Parameters
+    ----------
+    variable : :class:`pulp.LpVariable`
+        A binary variable of a solved problem.
+
+    Returns
+    -------
+    result : bool
+        True if the variable is 1 (solvers may return values like 0.9999999).
+    """
+    return variable.varValue is not None and variable.varValue > 0.5
+
+
+def array_from_assignments(n_areas, assignments):
+    """
+    Parameters
+    ----------
+    n_areas : int
+        Number of areas.
+    assignments : iterable
+        The elements are tuples of an area and its region.
+
+    Returns
+    -------
+    result : :class:`numpy.ndarray`
+        Array of region labels.
+
+    Raises
+    ------
+    exc : RuntimeError
+        A `RuntimeError` is raised if there is not exactly one region for each
+        area.
+
+    Examples
+    --------
+    >>> (array_from_assignments(2, [(1, 0), (0, 1)]) == [1, 0]).all()
+    True
+    """
+    result = -np.ones(n_areas)
+    for area, region in assignments:
+        if result[area] not in (-1, region):
+            raise RuntimeError(
+                "The solver assigned area {} to several regions.".format(area)
+            )
+        result[area] = region
+    if (result == -1).any():
+        raise RuntimeError("The solver did not assign all areas to regions.")
+    return result
-- 
2.43.0


From f2db5ea72c8b7739b30a986c044adac2fd8b7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 13/30] fix: exact max-p accepts areas with identical
 attributes

log10(0) raised a ValueError.
---
 region/max_p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 3718b63..cb52fa3 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -89,7 +89,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
+        h = 1 + floor(log10(d_sum)) if d_sum > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From 14549837266876221dd08fc5a453ba5a58b35dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 14/30] fix: exact max-p publishes only labels the solver
 proved optimal

The solver's status was ignored, values like 0.9999999 counted as 0 and areas
without a region silently got region 0. The metric attribute no longer changes
when a fit fails.
---
 region/max_p_regions/exact.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index cb52fa3..6400fbe 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -8,10 +8,11 @@ import networkx as nx
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
 
 from region.csgraph_utils import neighbors
-from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
-    get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+from region.util import array_from_assignments, array_from_df_col,\
+    array_from_dict_values, array_from_graph_or_dict, assert_feasible,\
+    check_solver, copy_func, get_metric_function, is_one,\
+    raise_distance_metric_not_set, scipy_sparse_matrix_from_dict,\
+    scipy_sparse_matrix_from_w, solve_to_optimality, w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -72,7 +73,7 @@ class MaxPRegionsExact:
             See the `metric` argument in
             :func:`region.util.get_metric_function`.
         """
-        self.metric = get_metric_function(metric)
+        metric = get_metric_function(metric)
         check_solver(solver)
 
         prob = LpProblem("Max-p-Regions", LpMinimize)
@@ -86,7 +87,7 @@ class MaxPRegionsExact:
         K = range(n_areas)
         # index of contiguity order, called c in [DAR2012]_:
         O = range(n_areas)
-        d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
+        d = {(i, j): metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
         d_sum = sum(d[(i, j)] for i, j in II_upper_triangle)
@@ -154,14 +155,18 @@ class MaxPRegionsExact:
             prob += x[I[0], K[0], o] == (1 if o == 0 else 0)
 
         # Solve the optimization problem
-        solver = get_solver_instance(solver)
-        prob.solve(solver=solver)
-        result = np.zeros(n_areas)
-        for i in I:
-            for k in K:
-                for o in O:
-                    if x[i, k, o].varValue == 1:
-                        result[i] = k
+        solve_to_optimality(prob, solver)
+        result = array_from_assignments(
+            n_areas,
+            ((i, k) for i in I for k in K for o in O if is_one(x[i, k, o])))
+        assert_feasible(result, adj)
+        for k in np.unique(result):
+            region_sum = spatially_extensive_attr[result == k].sum(axis=0)
+            if not np.all((region_sum >= threshold) |
+                          np.isclose(region_sum, threshold)):
+                raise RuntimeError("The solver returned a region which does "
+                                   "not reach the threshold.")
+        self.metric = metric
         self.labels_ = result
         self.solver = solver
 
-- 
2.43.0


From 83ed42ddeea06edf6ebf517f63f5418360ef0303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 15/30] fix: SKATER does not change the transform of the
 caller's weights

---
 region/skater/skater.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..3bf966e 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,9 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
-        W.transform = 'b'
-        W = W.sparse
+        # binary copy (W belongs to the caller)
+        W = W.sparse.copy()
+        W.data = np.ones(W.data.shape)
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 544947b859f4cf68294efaaa6f00ce5544723b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 16/30] fix: SKATER keeps edges between areas with identical
 attributes

Edges with zero dissimilarity were dropped, which disconnected the map and
changed the number of regions.
---
 region/skater/skater.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 3bf966e..50b5969 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,6 +79,9 @@ class Spanning_Forest(object):
 
         super_verbose = verbose > 1
         start_W = time.time()
+        # zero elements are no edges for csgraph, but identical neighbors are
+        attribute_kernel = np.where(attribute_kernel == 0,
+                                    np.finfo(float).tiny, attribute_kernel)
         dissim = W.multiply(attribute_kernel)
         dissim.eliminate_zeros()
         end_W = time.time() - start_W
-- 
2.43.0


From 60e76774b1685f6bd310917644ecc1766e3d8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 17/30] fix: SKATER publishes trace and labels only when the
 fit succeeds

---
 region/skater/skater.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 50b5969..09c4fe2 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -65,8 +65,7 @@ class Spanning_Forest(object):
         NOTE: Optimization occurs with respect to a *dissimilarity* metric, so the problem *minimizes* 
               the map dissimilarity. So, lower scores are better. 
         """
-        if trace:
-            self._trace = []
+        steps = []
         if data is None:
             attribute_kernel = np.ones((W.n,W.n))
             data = np.ones((W.n,1))
@@ -118,9 +117,9 @@ class Spanning_Forest(object):
                 raise ValueError("Islands must be larger than the quorum. If not, drop the small islands and solve for"
                                  " clusters in the remaining field.")
         if trace:
-            self._trace.append((current_labels, deletion(np.nan, np.nan, np.inf)))
+            steps.append((current_labels, deletion(np.nan, np.nan, np.inf)))
             if super_verbose:
-                print(self._trace[-1])
+                print(steps[-1])
         while current_n_subtrees < n_clusters: # while we don't have enough regions
             best_deletion = self.find_cut(MSF, data, quorum=quorum, 
                                           labels=None, target_label=None, verbose=verbose)
@@ -136,16 +135,17 @@ class Spanning_Forest(object):
                      "Decrease the size of your quorum to find the remaining {} subtrees."
                      .format(current_n_subtrees, n_clusters - current_n_subtrees),
                      OptimizeWarning, stacklevel=2)
-                self.current_labels_ = current_labels
-                self.minimum_spanning_forest_ = MSF
-                self._elapsed_time = time.time() - start
-                return self
+                break
             if trace:
-                self._trace.append((current_labels,best_deletion))
+                steps.append((current_labels,best_deletion))
                 
+        elapsed_time = time.time() - start
+        # nothing is published by a fit which fails
+        if trace:
+            self._trace = steps
         self.current_labels_ = current_labels
         self.minimum_spanning_forest_ = MSF
-        self._elapsed_time = time.time() - start
+        self._elapsed_time = elapsed_time
         return self
     
     def score(self, data, labels=None, quorum=-np.inf):
-- 
2.43.0


From 93ac779790c3192d0847c05204190ee4efd999fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 18/30] fix: SKATER accepts an affinity

score passes X and Y by keyword, which the inverted affinity rejected.
---
 region/skater/skater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 09c4fe2..43b12bf 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,8 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda *args, **kwargs: -np.log(affinity(*args,
+                                                             **kwargs))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From b7455e3fff96b1ead1330fe2c539229a0205d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 19/30] fix: stored zeros of an adjacency matrix are no links

scipy's graph routines take them for edges, so a matrix out of which links
were edited gave disconnected regions or a wrong number of them.
---
 region/csgraph_utils.py            | 30 ++++++++++++++++++++++++++++++
 region/max_p_regions/heuristics.py |  2 ++
 region/p_regions/azp.py            |  4 +++-
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index 364b079..ad8cace 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -70,6 +70,36 @@ def neighbors(adj, area):
     return adj[area].nonzero()[1]
 
 
+def without_stored_zeros(adj):
+    """
+    Parameters
+    ----------
+    adj : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix.
+
+    Returns
+    -------
+    result : :class:`scipy.sparse.csr_matrix`
+        A copy of `adj` storing its nonzero elements only. (Scipy's graph
+        routines take a stored zero for an edge.)
+
+    Examples
+    --------
+    >>> import numpy as np
+    >>> from scipy.sparse import csr_matrix
+    >>> adj = csr_matrix(np.array([[0, 1],
+    ...                            [1, 0]]))
+    >>> adj.data[:] = 0
+    >>> is_connected(adj)
+    True
+    >>> is_connected(without_stored_zeros(adj))
+    False
+    """
+    adj = csr_matrix(adj, copy=True)
+    adj.eliminate_zeros()
+    return adj
+
+
 def sub_adj_matrix(adj, nodes, wo_nodes=None):
     """
     Parameters
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 837a9c9..a359598 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -4,6 +4,7 @@ import random
 import networkx as nx
 from libpysal import weights
 
+from region.csgraph_utils import without_stored_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
@@ -75,6 +76,7 @@ class MaxPRegionsHeu:
             The objective function to use.
         """
 
+        adj = without_stored_zeros(adj)
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 0a3ad54..01728c4 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -6,7 +6,8 @@ import random
 import numpy as np
 import networkx as nx
 
-from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
+from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected, \
+    without_stored_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
@@ -86,6 +87,7 @@ class AZP:
         """
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
+        adj = without_stored_zeros(adj)
         self.allow_move_strategy.attr_all = attr
         self.objective_func = objective_func
         # step 1
-- 
2.43.0


From 028ae636b5ac43daca8fe157a0ca83d9fbe0ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 20/30] fix: negative region ids in initial labels

Areas of a region -1 were taken for areas of another component and never
moved.
---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 01728c4..7e222c6 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -93,6 +93,8 @@ class AZP:
         # step 1
         if initial_labels is not None:
             assert_feasible(initial_labels, adj, n_regions)
+            # -1 marks areas of other components below
+            initial_labels = initial_labels - min(0, np.min(initial_labels))
             initial_labels_gen = separate_components(adj, initial_labels)
         else:
             initial_labels_gen = generate_initial_sol(
-- 
2.43.0


From 7486ca6dffd374e9013f21b8e503283c7bf7e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 21/30] fix: max-p heuristic with areas neighbouring themselves

An area on whose diagonal the adjacency matrix is set was offered as its own
unassigned neighbour and the fit crashed.
---
 region/max_p_regions/heuristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index a359598..6c9fd45 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -397,11 +397,11 @@ class MaxPRegionsHeu:
                                                     attr)
                         region.add(neigh)
                         unassigned_neighs.remove(neigh)
+                        unassigned_areas.remove(neigh)
+                        assigned_areas.append(neigh)
                         unassigned_neighs.update(set(adj[neigh].nonzero()[1]))
                         unassigned_neighs.difference_update(assigned_areas)
                         spat_ext_attr += spatially_extensive_attr[neigh]
-                        unassigned_areas.remove(neigh)
-                        assigned_areas.append(neigh)
                     else:
                         enclave_areas.extend(region)
                         feasible = False
-- 
2.43.0


From 911319c4c436a713728bd9703cd70273b3c26ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 22/30] fix: switch off cbc's Gomory cuts, which make it miss
 the optimum

The cbc shipped with pulp reported suboptimal solutions as optimal for about
1 in 1000 small flow and tree models; without these cuts for none of 10000.
---
 region/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 856a155..bad0fb7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -918,7 +918,11 @@ def get_solver_instance(solver_string):
         "glpk": pulp.solvers.GLPK,
         "gurobi": pulp.solvers.GUROBI,
     }[solver_string.lower()]
-    solver_instance = solver()
+    if solver is pulp.solvers.PULP_CBC_CMD:
+        # Gomory cuts make the cbc shipped with pulp miss the optimum at times
+        solver_instance = solver(options=["gomory off"])
+    else:
+        solver_instance = solver()
     return solver_instance
 
 
-- 
2.43.0


From e89bfee0819b3c1e62da87f609dd05b51b5da1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 23/30] fix: scale objective functions with very small or large
 coefficients

With dissimilarities of about 1e-5 and below (or above 1e13) the solver's
absolute tolerances made the exact models return suboptimal regions.
---
 region/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/region/util.py b/region/util.py
index bad0fb7..e8dff52 100755
--- a/region/util.py
+++ b/region/util.py
@@ -1,6 +1,7 @@
 import collections
 import functools
 import itertools
+import math
 import random
 import types
 
@@ -944,6 +945,12 @@ def solve_to_optimality(prob, solver_string):
         A `RuntimeError` is raised if the solver did not find an optimum, e.g.
         because the problem is infeasible or because the solver was stopped.
     """
+    # Solvers compare objective values with absolute tolerances. Hence the
+    # objective function is scaled if its coefficients are very small or large.
+    largest = max((abs(coef) for coef in prob.objective.values()), default=0)
+    if 0 < largest < 1 or 2 ** 40 < largest < float("inf"):
+        exponent = 20 - math.frexp(largest)[1]
+        prob.objective = prob.objective * 2.0 ** min(exponent, 1000)
     prob.solve(get_solver_instance(solver_string))
     status = pulp.LpStatus[prob.status]
     if status != "Optimal":
-- 
2.43.0


From 12268d086ea79b57f7ea1eedb328d96bb708434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 24/30] fix: exact max-p with very small or large thresholds

Thresholds below 1e-8 were not enforced, about 1e-7 ended with an error and
above 1e12 feasible requests were rejected (absolute tolerances).
---
 region/max_p_regions/exact.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 6400fbe..ad8c04e 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -76,6 +76,14 @@ class MaxPRegionsExact:
         metric = get_metric_function(metric)
         check_solver(solver)
 
+        # Solvers compare sums and thresholds with absolute tolerances. Hence
+        # very small and very large thresholds are scaled.
+        exponent = np.frexp(threshold)[1]
+        scale = np.where((exponent < 0) | (exponent > 20),
+                         np.ldexp(1.0, 10 - exponent), 1.0)
+        threshold = threshold * scale
+        spatially_extensive_attr = spatially_extensive_attr * scale
+
         prob = LpProblem("Max-p-Regions", LpMinimize)
 
         # Parameters of the optimization problem
-- 
2.43.0


From 60a02ad1de34edbd40f39fa102470f406c8b82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 25/30] fix: make fitted tabu estimators picklable

The tabu list holds moves, whose type could not be found by its name.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index e8dff52..a9a017f 100755
--- a/region/util.py
+++ b/region/util.py
@@ -15,7 +15,7 @@ import pulp
 
 from region.csgraph_utils import sub_adj_matrix, is_connected
 
-Move = collections.namedtuple("move", "area old_region new_region")
+Move = collections.namedtuple("Move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
 
 
-- 
2.43.0


From a92ea94287eb697bacffc72b182f8550a1334f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 26/30] fix: endless recursion when copying or unpickling
 AllowMoveAZPMaxPRegions

---
 region/p_regions/azp_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 19883bb..2516241 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -209,4 +209,6 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
         Forward calls to unimplemented methods to _decorated_strategy
         (necessary e.g. for :class:`AllowMoveAZPSimulatedAnnealing`).
         """
+        if name == "_decorated_strategy":  # not set yet (e.g. unpickling)
+            raise AttributeError(name)
         return getattr(self._decorated_strategy, name)
-- 
2.43.0


From a0c4cb0120620b520ba538463cf25f106f7da679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:46 +0000
Subject: [PATCH 27/30] fix: make Spanning_Forest with an affinity picklable

---
 region/skater/skater.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 43b12bf..4c60419 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -2,12 +2,16 @@ from sklearn.metrics import pairwise as skm
 from scipy.sparse import csgraph as cg
 from scipy.optimize import OptimizeWarning
 from collections import namedtuple
+from functools import partial
 from warnings import warn
 import time
 import numpy as np
 import copy
 deletion = namedtuple('deletion', ('in_node', 'out_node', 'score'))
 
+def _inverted(affinity, *args, **kwargs):
+    return -np.log(affinity(*args, **kwargs))
+
 class Spanning_Forest(object):
     def __init__(self,
                  dissimilarity=skm.manhattan_distances,
@@ -32,8 +36,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda *args, **kwargs: -np.log(affinity(*args,
-                                                             **kwargs))
+            metric = partial(_inverted, affinity)
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 7d2bf657166fc9a028066fe693d1fba39d464ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 28/30] fix: keep region ids of initial labels which do not fit
 into 32 bits

Ids were cast to int32 without a check, so ids differing by a multiple
of 2**32 merged two regions, others became negative (also: shifting
negative ids overflowed in narrow integer arrays).
---
 region/p_regions/azp.py | 7 ++++---
 region/util.py          | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 7e222c6..ceab0f0 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -94,7 +94,8 @@ class AZP:
         if initial_labels is not None:
             assert_feasible(initial_labels, adj, n_regions)
             # -1 marks areas of other components below
-            initial_labels = initial_labels - min(0, np.min(initial_labels))
+            initial_labels = np.subtract(
+                initial_labels, min(0, np.min(initial_labels)), dtype=float)
             initial_labels_gen = separate_components(adj, initial_labels)
         else:
             initial_labels_gen = generate_initial_sol(
@@ -280,7 +281,7 @@ class AZP:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True, dtype=np.int64)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
@@ -541,7 +542,7 @@ class AZPSimulatedAnnealing:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True, dtype=np.int64)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
diff --git a/region/util.py b/region/util.py
index a9a017f..64ab935 100755
--- a/region/util.py
+++ b/region/util.py
@@ -853,7 +853,7 @@ def separate_components(adj, labels):
     """
     n_comps, comp_labels = csg.connected_components(adj)
     for comp in set(comp_labels):
-        region_labels = -np.ones(len(comp_labels), dtype=np.int32)
+        region_labels = -np.ones(len(comp_labels), dtype=np.int64)
         in_comp = comp_labels == comp
         region_labels[in_comp] = labels[in_comp]
         yield region_labels
-- 
2.43.0


From 5012ff5b916fa782a798d89d5413c28c689706c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:56 +0000
Subject: [PATCH 29/30] fix: sum the spatially extensive attribute of the max-p
 heuristic without overflow

Arrays (or data frame columns) of small integer types were summed in
their own type, e.g. populations in int32 columns.
---
 region/max_p_regions/heuristics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 6c9fd45..a21fad4 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -1,6 +1,7 @@
 import copy
 import random
 
+import numpy as np
 import networkx as nx
 from libpysal import weights
 
@@ -80,6 +81,9 @@ class MaxPRegionsHeu:
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
+        # sums of small integer types (or booleans) could overflow
+        spatially_extensive_attr = spatially_extensive_attr.astype(
+            np.result_type(spatially_extensive_attr, np.int64))
 
         best_partition = None
         best_obj_value = float("inf")
-- 
2.43.0


From 669a5eff46571b9f38bccf47d8c7a01530f08efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 30/30] fix: ZeroDivisionError of simulated annealing when the
 temperature has been cooled to 0

Objective functions returning plain Python numbers (numpy numbers only
warned).
---
 region/p_regions/azp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 2516241..66f7bf8 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -94,7 +94,8 @@ class AllowMoveAZPSimulatedAnnealing(AllowMoveStrategy):
             return True
         else:
 
-            prob = math.exp(-diff / self.t)
+            # long cooling makes the temperature 0
+            prob = math.exp(-diff / self.t) if self.t > 0 else 0
             move_allowed = (self.rng or random).random() < prob
             if move_allowed:
                 self.notify_move_made()
-- 
2.43.0

