From ff9b469394f3fee79dbd62820e56583f1e79349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 01/13] fix: keep demand share gamma non-negative under
 rounding

alpha + beta <= 1 is accepted, but 1 - alpha - beta can round to a tiny
negative number (0.9, 0.1), which change_vij rejected.
---
 sidermit/city/demand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/demand.py b/sidermit/city/demand.py
index b9f8935..6d015fa 100644
--- a/sidermit/city/demand.py
+++ b/sidermit/city/demand.py
@@ -150,7 +150,7 @@ class Demand:
             n = demand_obj.__n
 
             if n > 1:
-                gamma = 1 - alpha - beta
+                gamma = max(0, 1 - alpha - beta)
                 alpha_g = alpha / (1 - beta)
                 gamma_g = gamma / (1 - beta)
             else:
-- 
2.43.0


From 8068e9f48cabe801ddc2e4c7a1e392702bda07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 02/13] fix: validate the return sequence edges in
 TransportNetwork.add_route

the validator raises or returns True, so 'or' never looked at the return sequence.
---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 58c2f1224418da11b564dd39a9bd78b17a25229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 03/13] fix: remove every route of a removed transport mode

the route list was modified while being iterated, so routes were skipped.
---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From 4b2debcf015e7c9f50dfb1984a436e503db8362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/13] fix: reject a city whose zone uses one id for both of
 its nodes

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..015ab0f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From 1e99d6edf0a0bb4b7ad8c38bcd6eb87f931c6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/13] fix: reject an imported city without a CBD node

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 015ab0f..b9418f0 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -565,6 +565,9 @@ class Graph:
                 if node_type == "SC":
                     subcenter.append(Subcenter(node_id, x, y, radius, angle, width, zone, name))
 
+            if len(cbd) == 0:
+                raise CBDDoesNotExistException("Need add CBD node previously")
+
             r_sc = []
             r_p = []
             ang_sc = []
-- 
2.43.0


From f4673bc5cf9205aad4e3f4aa3a32f5cd42331728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 06/13] fix: assign the trips when the indifference distance
 equals a stop position

with equal labels (or d exactly on the last stop position) no branch was
taken and the trips of the OD pair were assigned to no stop at all.
---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From ef127989797d776be69297cf32a6e07113a65211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 07/13] fix: count every node a route passes through in its
 travel time

a node where no route stops was skipped, so the edge took the straight line
between its stops instead of the node sequence of the route.
---
 .../optimization/preoptimization/extended_graph.py     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..c7c2fe6 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, city_nodes)
 
         self.__extended_graph_edges = []
 
@@ -479,10 +479,13 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node,
+                          city_nodes: List[CityNode] = None) -> List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param city_nodes: List[CityNode], all the nodes of the city. A route can pass through a node where no route
+        stops, and such a node is not in extended_graph_nodes
         :return: List[ExtendedEdge]
         """
 
@@ -495,6 +498,9 @@ class ExtendedGraph:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
 
+        for city_node in city_nodes or []:
+            nodes.append(city_node.graph_node)
+
         route_edges = []
         for route_node in route_nodes:
             # only if route node has previous route node
-- 
2.43.0


From 8c8aa34f2adc1c21102b271645efbb56cabf9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/13] fix: take the travel direction from the route node in
 resources_consumer

the direction was guessed from the positions in stops_sequence_i, which is
wrong on the first section of a circular route and on asymmetric routes.
---
 sidermit/optimization/users_cost.py | 37 ++---------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..d0e98ff 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,25 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     pax_b = v[nodei.route.id]["I"][nodej]
                                     tv += (pax_b * 0.5 * tb) * dis_pax
 
@@ -159,25 +143,8 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     # simultaneo
                                     if bya == 1:
                                         pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-- 
2.43.0


From 3a066c2e149b68b9e879b0a6aa2caa49714e26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/13] fix: weight the access time of a transfer by its
 passengers

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index d0e98ff..d14eaab 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -125,10 +125,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From df726861040bffd5c717eac2329ef0d97dec1490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 10/13] fix: discount the passengers that alight where nobody
 boards in the route report

get_network_results only looked at the stops with boardings, so with
sequential boarding and alighting the load never went down at stops where
passengers only alight.
---
 sidermit/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..a6a6b92 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -612,7 +612,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_i:
                         bool_add = False
-                        for stopnode in z[route.id]["I"]:
+                        for stopnode in list(z[route.id]["I"]) + list(v[route.id]["I"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
                                 pax_a = v[route.id]["I"][stopnode]
@@ -628,7 +628,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_r:
                         bool_add = False
-                        for stopnode in z[route.id]["R"]:
+                        for stopnode in list(z[route.id]["R"]) + list(v[route.id]["R"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
                                 pax_a = v[route.id]["R"][stopnode]
-- 
2.43.0


From 614d73071f87d09daa175e2b2ee4ed829ff29267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 11/13] fix: report a route with frequency and no passengers
 instead of dividing by zero

---
 sidermit/optimization/optimizer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index a6a6b92..6ddf183 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -610,6 +610,8 @@ class Optimizer:
                 else:
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
+                    # a route without passengers has no load
+                    capacity = k[route.id] if k[route.id] > 0 else 1
                     for node_id in nodes_sequence_i:
                         bool_add = False
                         for stopnode in list(z[route.id]["I"]) + list(v[route.id]["I"]):
@@ -619,11 +621,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / capacity))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / capacity))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
@@ -635,14 +637,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / capacity))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / capacity))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From fbeb16888c8444f423aac4d096a194952547c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 12/13] fix: align section loads and boardings of circular
 routes in the route report

a section without passengers shifted the loads of the next ones (or raised
IndexError) and the node that closes the circle counted its boardings twice.
---
 sidermit/optimization/optimizer.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 6ddf183..f2e2c54 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -558,13 +558,17 @@ class Optimizer:
                         direction = "R"
                     load_i = []
                     for i in node_sequence:
-                        for stop_node in z[route.id][direction]:
+                        load = 0
+                        for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                total_b += z[route.id][direction][stop_node]
+                                load = loaded_section_route[route.id][direction][stop_node]
                                 break
-                        for stop_node in loaded_section_route[route.id][direction]:
+                        load_i.append(load)
+                    # the last node of the sequence is the first one again
+                    for i in node_sequence[:-1]:
+                        for stop_node in z[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                total_b += z[route.id][direction][stop_node]
                                 break
 
                     if total_b == 0:
@@ -573,11 +577,10 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    max_load = max(load_i)
+                    if max_load == 0:
+                        max_load = 1
+                    charge_min = min(load_i) / max_load
 
                     sub_table = []
                     sub_table_i = []
@@ -588,13 +591,13 @@ class Optimizer:
                     for i in range(len(node_sequence)):
                         if i == 0:
                             node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
                             continue
                         else:
                             node_j = node_sequence[i]
                             sub_table.append((node_i, node_j, abs(charge_ij)))
                             node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From 2cb715a9070b51e5548abd0dfea78e361ac28f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 13/13] fix: only take a CBD eccentricity in [0,1] from an
 imported city

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index b9418f0..797b451 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -611,7 +611,7 @@ class Graph:
                 ang_sc.append(angle_sc)
 
                 # Update etha and etha_zone
-                if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
+                if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001 and r_cbd <= radius_sc:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
-- 
2.43.0

