From 7a72f54816a537cae47d4e09ea08faff17d65e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:26 +0000
Subject: [PATCH 01/30] fix: solve() no longer reuses routes, locks and
 counters of a previous call

---
 vrpy/vrp.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..5d3051e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -236,13 +236,18 @@ class VehicleRoutingProblem:
         self._max_iter = max_iter
         self._run_exact = run_exact
         self._heuristic_only = heuristic_only
-        if self._pricing_strategy == "Hyper":
-            self.hyper_heuristic = _HyperHeuristic()
+        self.hyper_heuristic = (
+            _HyperHeuristic() if self._pricing_strategy == "Hyper" else None
+        )
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
+        # Nothing is kept from a previous call
+        self._preassignments = preassignments if preassignments else []
+        self._initial_routes = initial_routes if initial_routes else []
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_routes_as_graphs = []
         # If only one type of vehicle, some formatting is done
         if not self.mixed_fleet:
             self._format()
-- 
2.43.0


From da2763a2365f66ee648c73c24db4dba3c653df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:26 +0000
Subject: [PATCH 02/30] fix: solve() works on a copy of the input graph

---
 vrpy/vrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 5d3051e..b1de8dc 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -97,6 +97,7 @@ class VehicleRoutingProblem:
         minimize_global_span=False,
     ):
         self.G = G
+        self._input_graph = G
         # VRP options/constraints
         self.num_stops = num_stops
         self.load_capacity = load_capacity
@@ -240,6 +241,8 @@ class VehicleRoutingProblem:
             _HyperHeuristic() if self._pricing_strategy == "Hyper" else None
         )
         self._start_time = time()
+        # The input graph is left as is: preprocessing is done on a (deep) copy
+        self.G = self._input_graph.to_directed()
         # Nothing is kept from a previous call
         self._preassignments = preassignments if preassignments else []
         self._initial_routes = initial_routes if initial_routes else []
-- 
2.43.0


From 5188f2161106ee80fdc0d86595f060460773f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 03/30] fix: solve() keeps num_stops and num_vehicles as set by
 the user

---
 vrpy/vrp.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index b1de8dc..5ccc9e9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -108,6 +108,7 @@ class VehicleRoutingProblem:
         self.drop_penalty = drop_penalty
         self.fixed_cost = fixed_cost
         self.num_vehicles = num_vehicles if num_vehicles is not None else []
+        self._num_vehicles = None
         self._num_vehicles_schedule = None
         self.use_all_vehicles = use_all_vehicles
         self.periodic = periodic
@@ -139,6 +140,7 @@ class VehicleRoutingProblem:
         self._lower_bound = []
         # Parameters for initial solution and preprocessing
         self._max_capacity: int = None
+        self._max_num_stops: int = None
         self._vehicle_types: Union[List, int] = None
         self._initial_routes = []
         self._preassignments = []
@@ -469,7 +471,7 @@ class VehicleRoutingProblem:
         check_feasibility(
             load_capacity=self.load_capacity, G=self.G, duration=self.duration
         )
-        self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
+        self._num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
             periodic=self.periodic, num_vehicles=self.num_vehicles
         )
         # Lock preassigned routes
@@ -479,12 +481,12 @@ class VehicleRoutingProblem:
         # Remove infeasible arcs
         self._prune_graph()
         # Compute upper bound on number of stops as knapsack problem
+        self._max_num_stops = self.num_stops
         if self.load_capacity and not self.pickup_delivery:
-            num_stops = get_num_stops_upper_bound(
+            self._max_num_stops = get_num_stops_upper_bound(
                 self.G, self._max_capacity, self.num_stops, self.distribution_collection
             )
-            self.num_stops = num_stops
-            logger.info("new upper bound : max num stops = %s" % num_stops)
+            logger.info("new upper bound : max num stops = %s" % self._max_num_stops)
         # Set empty route cost if use_all_vehicles = True
         if self.use_all_vehicles:
             n_vehicle_types = len(self.G["Source"]["Sink"]["cost"])
@@ -506,7 +508,7 @@ class VehicleRoutingProblem:
             self._routes_with_node,
             self._routes,
             self.drop_penalty,
-            self.num_vehicles,
+            self._num_vehicles,
             self.use_all_vehicles,
             self.periodic,
             self.minimize_global_span,
@@ -805,7 +807,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -823,7 +825,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -842,7 +844,7 @@ class VehicleRoutingProblem:
                 self._routes,
                 vehicle_type,
                 route,
-                self.num_stops,
+                self._max_num_stops,
                 self.load_capacity,
                 self.duration,
                 self.time_windows,
@@ -867,7 +869,7 @@ class VehicleRoutingProblem:
             self.G,
             self.load_capacity,
             self.duration,
-            self.num_stops,
+            self._max_num_stops,
         )
         alg.run()
         self._best_routes = dict(
@@ -906,7 +908,7 @@ class VehicleRoutingProblem:
                     self.G,
                     self.load_capacity,
                     self.duration,
-                    self.num_stops,
+                    self._max_num_stops,
                     alpha,
                     # beta,
                     # gamma,
@@ -922,7 +924,7 @@ class VehicleRoutingProblem:
             )
 
             # Run greedy algorithm if possible
-            alg = _Greedy(self.G, self.load_capacity, self.num_stops, self.duration)
+            alg = _Greedy(self.G, self.load_capacity, self._max_num_stops, self.duration)
             alg.run()
             logger.info(
                 "Greedy solution found with value %s and %s vehicles"
-- 
2.43.0


From f2f00aed59d340f496b70c3a4a657dc43c3a03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 04/30] fix: maximum duration accounts for service times with
 cspy and in the feasibility check

---
 vrpy/checks.py          | 4 +++-
 vrpy/subproblem_cspy.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..49f80c9 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -208,7 +208,9 @@ def check_feasibility(
                 shortest_path_from = shortest_path_length(
                     G, source=v, target="Sink", weight="time"
                 )
-                shortest_trip = shortest_path_from + shortest_path_to
+                shortest_trip = (
+                    shortest_path_from + G.nodes[v]["service_time"] + shortest_path_to
+                )
                 if shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..7cf01f2 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -360,11 +360,12 @@ class _SubProblemCSPY(_SubProblemBase):
             self.sub_G.edges[i, j]["res_cost"][1] = demand_head_node
 
     def add_max_duration(self):
-        """Updates maximum travel time."""
+        """Updates maximum duration (travel times and service times)."""
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From 02c74e68f7f089803ef61fc5c5372a989820b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:07 +0000
Subject: [PATCH 05/30] fix: Clarke & Wright uses the right arcs for the
 duration of insertions next to the Source

---
 vrpy/clarke_wright.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..7ee9df6 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._added_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,24 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _added_time(self, existing_node, new_node, depot):
+        """Extra duration if new_node is inserted between existing_node and depot."""
+        service_time = self.G.nodes[new_node]["service_time"]
+        if depot == "Sink":
+            return (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                + service_time
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        return (
+            self.G.edges["Source", new_node]["time"]
+            + self.G.edges[new_node, existing_node]["time"]
+            + service_time
+            - self.G.edges["Source", existing_node]["time"]
+        )
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +185,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._added_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +210,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +220,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From 345043a19140444d1cd0b2948eb975e0737051c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:02 +0000
Subject: [PATCH 06/30] fix: greedy pricing checks the duration of the closing
 arc and accounts for service times

---
 vrpy/subproblem_greedy.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..6fd58d0 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -124,11 +124,16 @@ class _SubProblemGreedy(_SubProblemBase):
         self._load += self.sub_G.nodes[self._new_node]["demand"]
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
-            self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
+            self._time += self._get_added_time(self._new_node, forward)
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
-                if self._new_node in self.sub_G.predecessors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.predecessors(
+                    "Sink"
+                ) and self._constraints_met("Sink", forward):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
+                    self._time += self._get_added_time("Sink", forward)
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -137,11 +142,16 @@ class _SubProblemGreedy(_SubProblemBase):
                 return False
         else:
             self._weight += self.sub_G.edges[self._new_node, self._last_node]["weight"]
-            self._time += self.sub_G.edges[self._new_node, self._last_node]["time"]
+            self._time += self._get_added_time(self._new_node, forward)
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.successors(
+                    "Source"
+                ) and self._constraints_met("Source", forward):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
+                    self._time += self._get_added_time("Source", forward)
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -179,16 +189,14 @@ class _SubProblemGreedy(_SubProblemBase):
 
     def _check_duration(self, v, forward):
         """Checks time constraint."""
-        if forward:
-            return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
-                <= self.duration
-            )
-        else:
-            return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
-                <= self.duration
-            )
+        return self._time + self._get_added_time(v, forward) <= self.duration
+
+    def _get_added_time(self, v, forward):
+        """Travel time between last node and v, and service time at v."""
+        edge = (self._last_node, v) if forward else (v, self._last_node)
+        return self.sub_G.edges[edge]["time"] + self.sub_G.nodes[v].get(
+            "service_time", 0
+        )
 
     """
     NOT IMPLEMENTED YET
-- 
2.43.0


From bad453e9ba2621145d3dc7e76002702a3b1a883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 07/30] fix: initial and locked routes get a vehicle type that
 carries their peak load, and its cost

---
 vrpy/vrp.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 5ccc9e9..200a368 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -965,18 +965,9 @@ class VehicleRoutingProblem:
         for route_id, r in enumerate(self._initial_routes, start=1):
             total_cost = 0
             G = DiGraph(name=route_id)
-            edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if self._get_max_load(r) <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -985,6 +976,12 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            edges = list(zip(r[:-1], r[1:]))
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
@@ -992,6 +989,25 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _get_max_load(self, route):
+        """Returns the largest load on board along the route."""
+        if self.distribution_collection:
+            # The vehicle leaves the Source with everything it distributes
+            load = sum(self._H.nodes[v]["demand"] for v in route)
+            loads = [load]
+            for v in route:
+                load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
+                loads.append(load)
+            return max(loads)
+        if self.pickup_delivery:
+            load = 0
+            loads = [load]
+            for v in route:
+                load += self._H.nodes[v]["demand"]
+                loads.append(load)
+            return max(loads)
+        return sum(self._H.nodes[v]["demand"] for v in route)
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1156,7 +1172,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._get_max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From 27e0b0b1f09a8a61cfc6d632ea74ba579c6a6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 08/30] fix: cspy only discards a route if it exists for the
 same vehicle type

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 7cf01f2..5165b2a 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -270,7 +270,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and new_route.graph["vehicle_type"] == r.graph["vehicle_type"]
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From 5429c385f1693a986a7d4fca9a9c785c6f13d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 09/30] fix: duals are found for nodes with special characters
 in their name

---
 vrpy/master_solve_pulp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..f8799a8 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -91,7 +91,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                # pulp may alter special characters in the name
+                constr_name = self.set_covering_constrs[node].name
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
-- 
2.43.0


From 49ff01e470459953d50617179c59f45dda21ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 10/30] fix: the schedule visits any customer at most once per
 day, also without demand

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From 491099ab61b1ecdb33df4d48824c1079e6b37333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 11/30] fix: keyword of the time limit for cplex in the
 schedule

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index a2eb8e2..2dcdd8c 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -112,7 +112,7 @@ class _Schedule:
         if self.solver == "cbc":
             self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "cplex":
-            self.prob.solve(pulp.CPLEX_CMD(msg=False, timelimit=time_limit))
+            self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "gurobi":
             gurobi_options = []
             if time_limit is not None:
-- 
2.43.0


From dadda7982f2eced5271ccf6871f81f7d55f8aca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 12/30] fix: preassigned complete routes are part of the
 heuristic_only solution

---
 vrpy/vrp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 200a368..45118da 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -881,6 +881,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._merge_preassigned_routes(len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1163,7 +1164,10 @@ class VehicleRoutingProblem:
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
-        # Merge with preassigned complete routes
+        self._merge_preassigned_routes(route_id)
+
+    def _merge_preassigned_routes(self, route_id):
+        """Merge with preassigned complete routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From 8f55e6e831ebb4d40c09363833c2d8b0ef5677dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 13/30] fix: dropped nodes are defined when all nodes are
 locked

---
 vrpy/master_solve_pulp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index f8799a8..1f2e499 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -27,6 +27,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         # variables
         self.y = {}  # route selection variable
         self.drop = {}  # dropping variable
+        self.dropped_nodes = []
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
         self.makespan = {}  # maximum global span
-- 
2.43.0


From 8af8be808e112dfde07b25c93823680f6cacb9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 14/30] fix: a collect larger than the capacity is rejected

---
 vrpy/checks.py | 10 +++++++++-
 vrpy/vrp.py    |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index 49f80c9..2d3ee92 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -188,7 +188,10 @@ def check_consistency(
 
 
 def check_feasibility(
-    load_capacity: list = None, G: DiGraph = None, duration: int = None
+    load_capacity: list = None,
+    G: DiGraph = None,
+    duration: int = None,
+    distribution_collection: bool = False,
 ):
     """Checks basic problem feasibility."""
 
@@ -199,6 +202,11 @@ def check_feasibility(
                     "Demand %s at node %s larger than max capacity %s."
                     % (G.nodes[v]["demand"], v, max(load_capacity))
                 )
+            if distribution_collection and G.nodes[v]["collect"] > max(load_capacity):
+                raise ValueError(
+                    "Collect %s at node %s larger than max capacity %s."
+                    % (G.nodes[v]["collect"], v, max(load_capacity))
+                )
     if duration:
         for v in G.nodes():
             if v not in ["Source", "Sink"]:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 45118da..7d4e7c9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -469,7 +469,10 @@ class VehicleRoutingProblem:
         )
         # Check feasibility
         check_feasibility(
-            load_capacity=self.load_capacity, G=self.G, duration=self.duration
+            load_capacity=self.load_capacity,
+            G=self.G,
+            duration=self.duration,
+            distribution_collection=self.distribution_collection,
         )
         self._num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
             periodic=self.periodic, num_vehicles=self.num_vehicles
-- 
2.43.0


From 871d74ddafc6c3c3e6632e1d142fc98ac726b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 15/30] fix: the tabu list of the diving heuristic is not
 shared between problems

---
 vrpy/restricted_master_heuristics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..b7bf5ff 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -35,7 +35,7 @@ class _DivingHeuristic:
         # Init current_node
         if self.current_node.parent is None:
             self.current_node.parent = relax
-        lp_node = _LPNode(self.current_node)
+        lp_node = _LPNode(self.current_node, self.current_node.tabu_list)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
             non_integer_vars = [
@@ -93,6 +93,6 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None, tabu_list=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        self.tabu_list = tabu_list if tabu_list is not None else []
-- 
2.43.0


From b3299d1e19ad8d9a7322bd270a272df0a0ee54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 16/30] fix: pickup and delivery actually uses pricing strategy
 'Exact'

---
 vrpy/checks.py | 1 +
 vrpy/vrp.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index 2d3ee92..687296b 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -185,6 +185,7 @@ def check_consistency(
         request = any("request" in G.nodes[v] for v in G.nodes())
         if not request:
             raise KeyError("pickup_delivery option expects at least one request.")
+    return pricing_strategy
 
 
 def check_feasibility(
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 7d4e7c9..29ec1e1 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -461,7 +461,7 @@ class VehicleRoutingProblem:
         # Setup default attributes if missing
         self._update_dummy_attributes()
         # Check options consistency
-        check_consistency(
+        self._pricing_strategy = check_consistency(
             cspy=self._cspy,
             pickup_delivery=self.pickup_delivery,
             pricing_strategy=self._pricing_strategy,
-- 
2.43.0


From 2836e40e1243081797cf6acd975864049b322408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 17/30] fix: no subproblem is solved without limit once the
 time is up

---
 vrpy/subproblem_cspy.py | 4 +++-
 vrpy/subproblem_lp.py   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 5165b2a..9552513 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -205,6 +205,8 @@ class _SubProblemCSPY(_SubProblemBase):
         """
         if not self.run_subsolve:
             return self.routes, False
+        if time_limit is not None and time_limit <= 0:
+            return self.routes, False
 
         self.formulate()
         logger.debug("resources = {}".format(self.resources))
@@ -249,7 +251,7 @@ class _SubProblemCSPY(_SubProblemBase):
                 self.min_res,
                 threshold=thr,
                 direction=direction,
-                time_limit=time_limit - 0.5 if time_limit else None,
+                time_limit=time_limit - 0.5 if time_limit is not None else None,
                 elementary=elementary,
                 REF_callback=my_callback,
                 # pickup_delivery_pairs=self.pickup_delivery_pairs,
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..aa98a27 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
-- 
2.43.0


From 32bc4bd43043cbda10df6108b0bc0ae48a2fffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 18/30] fix: the global span bounds the cost of all routes

---
 vrpy/master_solve_pulp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 1f2e499..7a8b884 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -410,7 +410,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = list(self.makespan_constr.values())
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From 7c8db08c877d683fd5a140bacb86aed03bae3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:55 +0000
Subject: [PATCH 19/30] fix: cspy pricing does not exclude routes with more
 than half of the nodes

---
 vrpy/subproblem_cspy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 9552513..a0a77c1 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -172,10 +171,11 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
-            sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+            sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
+            + sum(
+                [self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()]
             ),  # time
             1,  # time windows
             total_demand,  # pickup
-- 
2.43.0


From 2d8cd7a0506a070c0b8c5b631ff783658ece238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:51 +0000
Subject: [PATCH 20/30] fix: mixed_fleet without any vehicle type is rejected

---
 vrpy/checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index 687296b..a736b9b 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -38,6 +38,10 @@ def check_arguments(
             % (pricing_strategy, strategies)
         )
     if mixed_fleet:
+        if not vehicle_types:
+            raise ValueError(
+                "mixed_fleet option requires load_capacity, num_vehicles or fixed_cost."
+            )
         if load_capacity and num_vehicles and len(load_capacity) != len(num_vehicles):
             raise ValueError(
                 "Input arguments load_capacity and num_vehicles must have same dimension."
-- 
2.43.0


From d7327bc3d6beed7b81dcb9ca9c4c28777b4325b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:00 +0000
Subject: [PATCH 21/30] fix: initial routes that violate stops, duration or
 time windows are not returned

---
 vrpy/vrp.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 29ec1e1..c56ac5e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -875,6 +875,8 @@ class VehicleRoutingProblem:
             self._max_num_stops,
         )
         alg.run()
+        if not all(self._is_feasible(route) for route in alg.best_routes):
+            raise ValueError("No feasible solution found.")
         self._best_routes = dict(
             zip([r for r in range(len(alg.best_routes))], alg.best_routes)
         )
@@ -985,7 +987,9 @@ class VehicleRoutingProblem:
                 edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
                 G.add_edge(i, j, cost=edge_cost)
                 total_cost += edge_cost
-            G.graph["cost"] = total_cost
+            # Infeasible routes are only kept as artificial columns
+            G.graph["infeasible"] = not self._is_feasible(r)
+            G.graph["cost"] = 1e10 if G.graph["infeasible"] else total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
@@ -993,6 +997,20 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _is_feasible(self, route):
+        """Checks number of stops, duration and time windows of a given route."""
+        if self.num_stops and len(route) - 2 > self.num_stops:
+            return False
+        duration = 0
+        arrival = self._H.nodes["Source"]["lower"]
+        for (i, j) in zip(route[:-1], route[1:]):
+            time_ij = self._H.nodes[i]["service_time"] + self._H.edges[i, j]["time"]
+            duration += time_ij
+            arrival = max(arrival + time_ij, self._H.nodes[j]["lower"])
+            if self.time_windows and arrival > self._H.nodes[j]["upper"]:
+                return False
+        return not self.duration or duration <= self.duration
+
     def _get_max_load(self, route):
         """Returns the largest load on board along the route."""
         if self.distribution_collection:
@@ -1163,6 +1181,8 @@ class VehicleRoutingProblem:
         self._best_routes_vehicle_type = {}
         route_id = 1
         for route in self._best_routes_as_graphs:
+            if route.graph.get("infeasible"):
+                raise ValueError("No feasible solution found.")
             node_list = shortest_path(route, "Source", "Sink")
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
-- 
2.43.0


From c5152c74c22bbd98c52acf416bf7d7dcac2a217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:00 +0000
Subject: [PATCH 22/30] fix: periodic visits meet the frequencies, a route may
 be selected several times

---
 vrpy/master_solve_pulp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 7a8b884..a85055c 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -128,7 +128,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # a route may be selected several times (periodic case)
+                best_routes += [r] * max(1, round(val))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -190,7 +191,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                     and self.G.nodes[node]["frequency"] > 1
                     and node != "Source"
                 ):
-                    self.dummy[node].cat = pulp.LpInteger
+                    # Frequencies must be met
+                    self.dummy[node].upBound = 0
             # Set route variables to integer
             for var in self.y.values():
                 # Disallow routes that visit multiple nodes
@@ -321,7 +323,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=self.periodic if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From dd5853c3e32843d7acc50a6021282d896760326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 23/30] fix: with dive, routes are selected by the final MIP
 instead of the relaxation

---
 vrpy/master_solve_pulp.py | 3 +++
 vrpy/vrp.py               | 6 +-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index a85055c..aa8364f 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -172,6 +172,9 @@ class _MasterSolvePulp(_MasterProblemBase):
     def _solve(self, relax: bool, time_limit: Optional[int]):
         # Set variable types
         if not relax:
+            # Release the columns fixed by the diving heuristic
+            for name in [c for c in self.prob.constraints if c.startswith("fix_")]:
+                del self.prob.constraints[name]
             # Set partitioning constraints and artificial variables to integer
             # (for the periodic case)
             for node in self.G.nodes():
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c56ac5e..344fa6d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -524,11 +524,7 @@ class VehicleRoutingProblem:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From 74268080975902e52140df8b1bcf2a9b3118a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 24/30] fix: the diving heuristic does not backtrack above its
 root

---
 vrpy/restricted_master_heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index b7bf5ff..f4e2443 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,9 +32,6 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node, self.current_node.tabu_list)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
@@ -80,7 +77,7 @@ class _DivingHeuristic:
                 if relax.status == 1:
                     prob.extend(constrs)
                     self.current_node = lp_node
-                else:
+                elif self.current_node.parent is not None:
                     # Backtrack
                     self.current_node = self.current_node.parent
                 logger.info(
-- 
2.43.0


From c7e91f5aae548a35e718d9f90fbeaa7f619b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:05 +0000
Subject: [PATCH 25/30] fix: the hyper heuristic copes with no active or no
 added columns

---
 vrpy/hyper_heuristic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..02f3ddd 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -332,11 +332,13 @@ class _HyperHeuristic:
                 norm_spread = 0
                 if sum_exp != 0:
                     norm_spread = self.exp[heuristic] / sum_exp
+                active_share = active_i / active if active else 0
+                added_share = active_i / total_added if total_added else 0
                 self.q[heuristic] = (
-                    self.weight_col_basic * active_i / active
+                    self.weight_col_basic * active_share
                     + self.weight_runtime * norm_runtime
                     + self.weight_obj * self.norm_objective_decrease[heuristic]
-                    + self.weight_col_total * active_i / total_added
+                    + self.weight_col_total * added_share
                 )
                 self.heuristic_points[heuristic] = self.theta * self.q[
                     heuristic
-- 
2.43.0


From 225141424de1e5f4e616bf10889476fe9d741f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 26/30] fix: time windows are not strengthened beyond what a
 detour allows

---
 vrpy/vrp.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 344fa6d..35b8afb 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -3,7 +3,7 @@ import logging
 from time import time
 from typing import List, Union
 
-from networkx import DiGraph, shortest_path  # draw_networkx
+from networkx import DiGraph, shortest_path, shortest_path_length  # draw_networkx
 
 from vrpy.greedy import _Greedy
 from vrpy.schedule import _Schedule
@@ -1067,6 +1067,24 @@ class VehicleRoutingProblem:
         self.G.remove_edges_from(infeasible_arcs)
 
     def _remove_infeasible_arcs_time_windows(self):
+        # Strengthen time windows
+        # (travel times do not necessarily satisfy the triangle inequality)
+        time_from_source = shortest_path_length(
+            self.G, source="Source", weight="time"
+        )
+        time_to_sink = shortest_path_length(self.G, target="Sink", weight="time")
+        for v in self.G.nodes():
+            if v not in ["Source", "Sink"]:
+                # earliest time is coming straight from depot
+                self.G.nodes[v]["lower"] = max(
+                    self.G.nodes[v]["lower"],
+                    self.G.nodes["Source"]["lower"] + time_from_source[v],
+                )
+                # Latest time is going straight to depot
+                self.G.nodes[v]["upper"] = min(
+                    self.G.nodes[v]["upper"],
+                    self.G.nodes["Sink"]["upper"] - time_to_sink[v],
+                )
         infeasible_arcs = []
         for (i, j) in self.G.edges():
             travel_time = self.G.edges[i, j]["time"]
@@ -1075,20 +1093,6 @@ class VehicleRoutingProblem:
             head_sup_time_window = self.G.nodes[j]["upper"]
             if tail_inf_time_window + travel_time + service_time > head_sup_time_window:
                 infeasible_arcs.append((i, j))
-            # Strengthen time windows
-            for v in self.G.nodes():
-                if v not in ["Source", "Sink"]:
-                    # earliest time is coming straight from depot
-                    self.G.nodes[v]["lower"] = max(
-                        self.G.nodes[v]["lower"],
-                        self.G.nodes["Source"]["lower"]
-                        + self.G.edges["Source", v]["time"],
-                    )
-                    # Latest time is going straight to depot
-                    self.G.nodes[v]["upper"] = min(
-                        self.G.nodes[v]["upper"],
-                        self.G.nodes["Sink"]["upper"] - self.G.edges[v, "Sink"]["time"],
-                    )
         self.G.remove_edges_from(infeasible_arcs)
 
     def _prune_graph(self):
-- 
2.43.0


From d9cae9033e26711fc46e68ce19379747d860d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 27/30] fix: round trips over removed arcs are artificial
 columns instead of a crash

---
 vrpy/vrp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 35b8afb..2e910f8 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -980,7 +980,9 @@ class VehicleRoutingProblem:
                 )
             edges = list(zip(r[:-1], r[1:]))
             for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                # arcs of infeasible routes may have been removed
+                edge = self.G.edges if self.G.has_edge(i, j) else self._H.edges
+                edge_cost = edge[i, j]["cost"][G.graph["vehicle_type"]]
                 G.add_edge(i, j, cost=edge_cost)
                 total_cost += edge_cost
             # Infeasible routes are only kept as artificial columns
-- 
2.43.0


From f0e49d4d75a29278bf023e4d63970ebc12784914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:20 +0000
Subject: [PATCH 28/30] fix: big-M of the time window constraints does not cut
 off feasible routes

---
 vrpy/subproblem_lp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index aa98a27..46be8a8 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -166,7 +166,12 @@ class _SubProblemLP(_SubProblemBase):
 
     def _add_time_windows(self):
         # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
+        M = max(
+            self.sub_G.nodes[i]["upper"]
+            + self.sub_G.nodes[i]["service_time"]
+            + self.sub_G.edges[i, j]["time"]
+            for (i, j) in self.sub_G.edges()
+        )
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
-- 
2.43.0


From 4d6c54ca2d76d30522318a07791b6cf3646ae31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 29/30] fix: count the service times of the depots in the
 maximum duration

---
 vrpy/subproblem_cspy.py   | 5 ++++-
 vrpy/subproblem_greedy.py | 2 ++
 vrpy/subproblem_lp.py     | 2 +-
 vrpy/vrp.py               | 1 +
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index a0a77c1..2e760c8 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -365,7 +365,10 @@ class _SubProblemCSPY(_SubProblemBase):
 
     def add_max_duration(self):
         """Updates maximum duration (travel times and service times)."""
-        self.max_res[2] = self.duration
+        # The service time of the Sink is on no arc
+        self.max_res[2] = self.duration - self.sub_G.nodes["Sink"].get(
+            "service_time", 0
+        )
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
             service_time = self.sub_G.nodes[i]["service_time"]
diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 6fd58d0..12e60f0 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -56,6 +56,7 @@ class _SubProblemGreedy(_SubProblemBase):
         The procedure aborts if path becomes infeasible.
         """
         self._current_path = ["Source"]
+        self._time = self.sub_G.nodes["Source"].get("service_time", 0)
         extend = True
         new_node = True
         while extend and new_node:
@@ -92,6 +93,7 @@ class _SubProblemGreedy(_SubProblemBase):
 
     def run_backwards(self):
         self._current_path = ["Sink"]
+        self._time = self.sub_G.nodes["Sink"].get("service_time", 0)
         extend = True
         new_node = True
         while extend and new_node:
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 46be8a8..fdc9a78 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -225,7 +225,7 @@ class _SubProblemLP(_SubProblemBase):
                     for (i, j) in self.sub_G.edges()
                 ]
             )
-            <= self.duration,
+            <= self.duration - self.sub_G.nodes["Sink"].get("service_time", 0),
             "max_duration_{}".format(self.duration),
         )
 
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2e910f8..997cdc1 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1007,6 +1007,7 @@ class VehicleRoutingProblem:
             arrival = max(arrival + time_ij, self._H.nodes[j]["lower"])
             if self.time_windows and arrival > self._H.nodes[j]["upper"]:
                 return False
+        duration += self._H.nodes[route[-1]]["service_time"]
         return not self.duration or duration <= self.duration
 
     def _get_max_load(self, route):
-- 
2.43.0


From 4b6181a8a3389ebb11e27169449169202425d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 30/30] fix: departure time from the Source includes its
 service time

---
 vrpy/vrp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 997cdc1..d5c019c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -408,7 +408,10 @@ class VehicleRoutingProblem:
             return departure
         for i in self.best_routes:
             departure[i] = {}
-            departure[i]["Source"] = self._H.nodes["Source"]["lower"]
+            departure[i]["Source"] = (
+                self._H.nodes["Source"]["lower"]
+                + self._H.nodes["Source"]["service_time"]
+            )
             route = self.best_routes[i]
             for j in range(1, len(route)):
                 tail = route[j - 1]
-- 
2.43.0

