From d9282f994f05e47517a13b0f71bfbbbb4fca1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 01/36] fix: do not require RSVP reservable bandwidth on links
 when no bandwidth is needed

Interfaces with rsvp_enabled=False (reservable_bandwidth -1) were left out of
IGP routing, of path queries with needed_bw=0 and of circuit matching.
---
 pyNTM/flex_model.py        | 10 +++++++---
 pyNTM/performance_model.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..cadcfd1 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -966,7 +966,9 @@ class FlexModel(_MasterModel):
 
         :param include_failed_circuits: include interfaces from currently failed
         circuits in the graph?
-        :param needed_bw: how much reservable_bandwidth is required?
+        :param needed_bw: how much reservable_bandwidth is required? 0 means there
+        is no bandwidth requirement, so interfaces that are not rsvp_enabled (which
+        have no reservable_bandwidth) are considered as well
         :param rsvp_required: True|False; only consider rsvp_enabled interfaces?
 
         :return: networkx multidigraph with edges that conform to the needed_bw and
@@ -982,14 +984,16 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (
+                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                    )
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..b77d813 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -513,7 +513,9 @@ class PerformanceModel(_MasterModel):
 
         :param include_failed_circuits: include interfaces from currently failed
         circuits in the graph?
-        :param needed_bw: how much reservable_bandwidth is required?
+        :param needed_bw: how much reservable_bandwidth is required? 0 means there
+        is no bandwidth requirement, so interfaces that are not rsvp_enabled (which
+        have no reservable_bandwidth) are considered as well
         :param rsvp_required: True|False; only consider rsvp_enabled interfaces?
 
         :return: networkx multidigraph with edges that conform to the needed_bw and
@@ -529,14 +531,16 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (
+                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                    )
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 5c43a9abc98696852187e4a6f9c76a6a54816ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 02/36] fix: FlexModel path queries return only links of the
 searched topology

get_shortest_path and get_all_paths_reservable_bw listed every parallel link of
a hop that had enough bandwidth, including failed and higher-cost links.
---
 pyNTM/flex_model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index cadcfd1..6b9ec69 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1372,7 +1372,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(path, G)
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1413,7 +1413,7 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1471,7 +1471,7 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(self, nx_graph_path, G):
         """
         Given a path from an networkx DiGraph, converts that
         path to a Model style path and returns that Model style path
@@ -1491,7 +1491,8 @@ class FlexModel(_MasterModel):
                 remote_node_object = Node('F'), circuit_id = 1)]
 
         :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
+        :param G: networkx multidigraph that nx_graph_path was found in; only the
+        Interfaces on its edges are considered
         :return: List of Model Interfaces from source to destination
         """
 
@@ -1506,9 +1507,7 @@ class FlexModel(_MasterModel):
                 next_hop = nx_graph_path[next_hop_index]
 
                 interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                    edge_data["interface"] for edge_data in G[hop][next_hop].values()
                 ]
 
                 model_path.append(interface)
-- 
2.43.0


From cbcf0f6773ca6ba7fa57f9f4de3fbda6a1553dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 03/36] fix: resignal an LSP over real paths when parallel
 links exist

FlexModel.get_shortest_path_for_routed_lsp appended every parallel link of a hop
as an additional hop and ignored failed and higher-cost links.
---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 6b9ec69..910d1e1 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1455,9 +1455,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1514,64 +1512,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1714,7 +1654,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1724,7 +1664,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From ca0fe3a33cf704c51e85db5d9def5b9b24e23ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 04/36] fix: account RSVP reservations exactly instead of in
 rounded steps

Each reservation was added to an already rounded total (so small LSPs vanished)
and validate_model compared sums rounded in different ways, raising
int_res_bw_sum_error for valid models such as four LSPs of 0.25.
---
 pyNTM/flex_model.py        | 20 +++++++++-----------
 pyNTM/interface.py         | 25 +++++++++++++++++++++++++
 pyNTM/master_model.py      | 18 ++++++++++--------
 pyNTM/performance_model.py | 20 +++++++++-----------
 4 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 910d1e1..51824d4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -985,7 +985,7 @@ class FlexModel(_MasterModel):
                 if (
                     interface.failed is False
                     and (
-                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                        needed_bw == 0 or interface.has_reservable_bandwidth(needed_bw)
                     )
                 )
             )
@@ -993,7 +993,7 @@ class FlexModel(_MasterModel):
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.has_reservable_bandwidth(needed_bw)
             )
 
         if rsvp_required is True:
@@ -1572,9 +1572,9 @@ class FlexModel(_MasterModel):
 
             # Determine which candidate paths have enough reservable bandwidth
             for path in candidate_path_info:
-                if (
-                    min(interface.reservable_bandwidth for interface in path)
-                    >= lsp.setup_bandwidth
+                if all(
+                    interface.has_reservable_bandwidth(lsp.setup_bandwidth)
+                    for interface in path
                 ):
                     candidate_path_info_w_reservable_bw.append(path)
 
@@ -1608,7 +1608,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
@@ -1640,13 +1640,11 @@ class FlexModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
-                )
+                lsp_res_bw_on_interface = lsp.reserved_bandwidth
             else:
-                effective_reservable_bw = interface.reservable_bandwidth
+                lsp_res_bw_on_interface = 0
 
-            if effective_reservable_bw >= needed_bw:
+            if interface.has_reservable_bandwidth(needed_bw, lsp_res_bw_on_interface):
                 eligible_interfaces.add(interface)
 
         # Get edge names in eligible_interfaces
diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..5d81596 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -1,5 +1,7 @@
 """An object representing a Node interface"""
 
+from math import isclose
+
 from .exceptions import ModelException
 
 # from .rsvp import RSVP_LSP
@@ -105,6 +107,29 @@ remote_node_object = %r, circuit_id = %r)" % (
         else:
             return -1.0
 
+    def has_reservable_bandwidth(self, needed_bw, credit=0):
+        """
+        Can needed_bw be reserved on the interface?  Compares the exact bandwidth
+        values, not the rounded ones that reserved_bandwidth and reservable_bandwidth
+        display.
+
+        :param needed_bw: amount of bandwidth to reserve
+        :param credit: amount of bandwidth already reserved on the interface that
+        the new reservation would replace
+        :return: Boolean
+        """
+        if self.rsvp_enabled is not True:
+            return False
+
+        available_bw = (
+            self.capacity * (self.percent_reservable_bandwidth / 100)
+            - self._reserved_bandwidth
+            + credit
+        )
+        return available_bw > needed_bw or isclose(
+            available_bw, needed_bw, abs_tol=1e-6
+        )
+
     @property
     def reserved_bandwidth(self):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..aa69579 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -145,9 +145,9 @@ class _MasterModel(object):
         for lsp in (lsp for lsp in self.rsvp_lsp_objects if "Unrouted" not in lsp.path):
             for interface in lsp.path["interfaces"]:
                 int_info[interface._key]["lsps"].append(lsp)
-                int_info[interface._key]["reserved_bandwidth"] += round(
-                    lsp.reserved_bandwidth, 1
-                )
+                int_info[interface._key][
+                    "reserved_bandwidth"
+                ] += lsp.reserved_bandwidth
         return int_info
 
     def _validate_circuit_interface_capacity(
@@ -196,10 +196,12 @@ class _MasterModel(object):
         :return: None
         """
 
-        if interface.reserved_bandwidth > interface.capacity:
+        if round(interface._reserved_bandwidth - interface.capacity, 4) > 0:
             int_res_bw_too_high.add(interface)
-        if round(interface.reserved_bandwidth, 1) != round(
-            int_info[interface._key]["reserved_bandwidth"], 1
+        if round(
+            interface._reserved_bandwidth
+            - int_info[interface._key]["reserved_bandwidth"],
+            1,
         ):  # pragma: no cover  # noqa
             int_res_bw_sum_error.add(
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
@@ -348,11 +350,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface._reserved_bandwidth -= lsp_res_bw_before
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index b77d813..431f754 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -430,9 +430,9 @@ class PerformanceModel(_MasterModel):
 
             # Determine which candidate paths have enough reservable bandwidth
             for path in all_paths:
-                if (
-                    min([interface.reservable_bandwidth for interface in path])
-                    >= lsp.setup_bandwidth
+                if all(
+                    interface.has_reservable_bandwidth(lsp.setup_bandwidth)
+                    for interface in path
                 ):
                     candidate_path_info_w_reservable_bw.append(path)
 
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
@@ -532,7 +532,7 @@ class PerformanceModel(_MasterModel):
                 if (
                     interface.failed is False
                     and (
-                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                        needed_bw == 0 or interface.has_reservable_bandwidth(needed_bw)
                     )
                 )
             )
@@ -540,7 +540,7 @@ class PerformanceModel(_MasterModel):
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.has_reservable_bandwidth(needed_bw)
             )
 
         if rsvp_required is True:
@@ -947,13 +947,11 @@ class PerformanceModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
-                )
+                lsp_res_bw_on_interface = lsp.reserved_bandwidth
             else:
-                effective_reservable_bw = interface.reservable_bandwidth
+                lsp_res_bw_on_interface = 0
 
-            if effective_reservable_bw >= needed_bw:
+            if interface.has_reservable_bandwidth(needed_bw, lsp_res_bw_on_interface):
                 eligible_interfaces.add(interface)
 
         # Get edge names in eligible_interfaces
-- 
2.43.0


From 35bd8c588b052fcc8ee27482057be0b9a17511c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 05/36] fix: simulate demands that source and terminate on the
 same node

update_simulation raised ValueError on the empty path of such a demand.
---
 pyNTM/flex_model.py        | 5 +++--
 pyNTM/performance_model.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 51824d4..c050629 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -725,8 +725,9 @@ class FlexModel(_MasterModel):
 
                 traffic_splits_per_interface[item] = total_splits
 
-            # Find path traffic
-            max_split = max([split for split in traffic_splits_per_interface.values()])
+            # Find path traffic; a path has no items if the demand sources and
+            # terminates on the same Node
+            max_split = max(traffic_splits_per_interface.values(), default=1)
             path_traffic = float(demand.traffic) / float(max_split)
 
             shortest_path_info[path_key]["items"] = path
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 431f754..095c187 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1486,8 +1486,9 @@ class PerformanceModel(_MasterModel):
                 )
                 traffic_splits_per_interface[interface] = total_splits
 
-            # Find path traffic
-            max_split = max([split for split in traffic_splits_per_interface.values()])
+            # Find path traffic; a path has no items if the demand sources and
+            # terminates on the same Node
+            max_split = max(traffic_splits_per_interface.values(), default=1)
             path_traffic = round(float(demand.traffic) / float(max_split), 4)
 
             shortest_path_info[path_key]["interfaces"] = path
-- 
2.43.0


From 2a213ec1779963a5831d6d4139aa7f4853124c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 06/36] fix: clear path_detail of demands that can no longer be
 routed

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index c050629..263cdba 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 095c187..03ea33d 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From b32a4f0c22df1fc2ce3a26eda8d373a941e7be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 07/36] fix: keep RSVP reservations of the last simulation
 until the next one

Failing or unfailing an interface zeroed its reserved bandwidth while its LSPs
still listed it in their paths, so validate_model (run by unfail_interface and
every add_* call) raised int_res_bw_sum_error and unfail_srlg left members failed.
---
 pyNTM/interface.py    | 3 ---
 pyNTM/master_model.py | 5 +----
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 5d81596..0f5aabc 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -183,7 +183,6 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             if len(failed_srlgs) > 0:
                 self._failed = True
-                self.reserved_bandwidth = 0
                 raise ModelException(
                     "Interface must be failed since it is a member "
                     "of one or more SRLGs that are failed"
@@ -198,11 +197,9 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             else:
                 self._failed = True
-                self.reserved_bandwidth = 0
 
         else:
             self._failed = True
-            self.reserved_bandwidth = 0
 
     @property
     def cost(self):
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index aa69579..b688544 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -751,17 +751,14 @@ class _MasterModel(object):
         # Find the remote interface
         remote_interface = interface_object.get_remote_interface(self)
 
-        # Ensure local and remote nodes are failed == False and set reservable
-        # bandwidth on each interface to interface.capacity
+        # Ensure local and remote nodes are failed == False
         if (
             self.get_node_object(interface_object.node_object.name).failed is False
             and self.get_node_object(remote_interface.node_object.name).failed is False
         ):
 
             remote_interface.failed = False
-            remote_interface.reserved_bandwidth = 0
             interface_object.failed = False
-            interface_object.reserved_bandwidth = 0
             self.validate_model()
         else:
             if raise_exception:
-- 
2.43.0


From 96c266ac6e67858c8c1b5c598fe61989ca4116ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 08/36] fix: do not share default component sets between models

Models built with omitted arguments all used the same mutable default sets.
---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 19 +++++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 263cdba..e34354a 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1985,10 +1985,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index b688544..d230396 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,19 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        # Default to a new set for each model; models must not share component sets
+        self.interface_objects = (
+            set() if interface_objects is None else interface_objects
+        )
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 03ea33d..cd94772 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1560,10 +1560,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From 908b5043e1fa1db398ba5991a28bfcf4cc9e4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 09/36] fix: reject duplicate interface names on a node

_unique_interface_per_node returns an error message (truthy) on duplicates, so
validate_model never reported them.
---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index e34354a..7da3dc7 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,7 +157,7 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
+        if unique_interfaces_per_node is not True:
             error_data.append(unique_interfaces_per_node)
 
         # Make validate_model() check for matching failed statuses
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index cd94772..32fffdd 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -199,6 +192,13 @@ class PerformanceModel(_MasterModel):
 
             error_data.append(multiple_links_between_nodes)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:
+            error_data.append(unique_interfaces_per_node)
+
         srlg_errors = self.validate_srlg_nodes()
 
         if len(srlg_errors) > 0:
-- 
2.43.0


From f29a3e612ba74d2623f2907b010a69c72dc5a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 10/36] fix: attach interfaces added from a list to the model's
 own nodes

add_network_interfaces_from_list created separate Node objects for its
interfaces, so failing or unfailing the model's nodes did not affect them.
---
 pyNTM/master_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d230396..da6cc0b 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1197,23 +1197,25 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # Nodes already in the model, plus those created for the new Interfaces
+        nodes = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Node already exists, if not, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes:
+                    nodes[node_name] = Node(node_name)
+                    network_node_objects.add(nodes[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes[interface["node"]],
+                nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 790d4db80f13b4897cb88ddc9b40a9a44d9775aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 11/36] fix: honor the failed state of circuits and interfaces
 being added

add_circuit ignored its failed argument, add_network_interfaces_from_list the
documented 'failed' key, and both left new interfaces up on failed nodes.
---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/master_model.py      | 2 ++
 pyNTM/performance_model.py | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 7da3dc7..746a9e2 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1306,6 +1306,10 @@ class FlexModel(_MasterModel):
                 "interface already exists in model".format(int_b, node_b_object)
             )
 
+        # The Interfaces will be failed if either of the Nodes is failed
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index da6cc0b..b38fc3e 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1216,6 +1216,8 @@ class _MasterModel(object):
                 nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
+            # An Interface will be failed if either of its Nodes is failed
+            intf.failed = interface.get("failed", False)
             network_interface_objects.add(intf)
 
         return (network_interface_objects, network_node_objects)
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 32fffdd..a0a09f1 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -729,6 +729,10 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
+        # The Interfaces will be failed if either of the Nodes is failed
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-- 
2.43.0


From e70db04d65b3fb50f347ecc451837b823f895e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 12/36] fix: compare node pairs, not joined names, when looking
 for parallel links

Links A to B-C and A-B to C were reported as multiple links between nodes.
---
 pyNTM/performance_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index a0a09f1..0ad3d89 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1531,7 +1531,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
-- 
2.43.0


From 96c74f83e249eb968e8a156bb3b6860b5ab4832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 13/36] fix: unfail both ends of a circuit removed from a
 failed SRLG

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 0f5aabc..cd62f92 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -450,3 +450,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From b76cd45a27945160b8a1f87997843dc4a687451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 14/36] fix: unfail_node skips interfaces held down by a failed
 SRLG

It raised ModelException at the first such interface, leaving the node's other
interfaces failed or not depending on set iteration order.
---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index b38fc3e..7e433c6 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -819,6 +819,10 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
+            # Interface will stay failed if it's part of an SRLG that is still failed
+            if any(srlg.failed for srlg in interface.srlgs):
+                continue
+
             # Unfail the interfaces if the remote node is not failed
             if not interface.remote_node_object.failed:
                 # Unfail the specific interface
-- 
2.43.0


From 2ae75833e6951c1b114b657f31e04f8d56e72563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 15/36] fix: apply documented defaults to blank optional model
 file columns

A blank rsvp_enabled was read as False; a blank percent_reservable_bandwidth or
igp_shortcuts_enabled raised ValueError.
---
 pyNTM/flex_model.py        | 9 ++++++---
 pyNTM/master_model.py      | 5 ++++-
 pyNTM/performance_model.py | 9 ++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 746a9e2..1a8588f 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1904,7 +1904,8 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # A blank value means the default, True
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1920,7 +1921,8 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # A blank value means the default, True
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1955,7 +1957,8 @@ class FlexModel(_MasterModel):
                 remote_node_object,
                 circuit_id,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                # A blank value means the default, 100
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 7e433c6..dd1531e 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -607,7 +607,10 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            # A blank value means the default, False
+            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = (
+                node_info[3] or False
+            )
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 0ad3d89..f180c45 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1168,7 +1168,8 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # A blank value means the default, True
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1183,7 +1184,8 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # A blank value means the default, True
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1218,7 +1220,8 @@ class PerformanceModel(_MasterModel):
                 remote_node_object,
                 None,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                # A blank value means the default, 100
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
-- 
2.43.0


From 83aff7b72fc21bca660d513eca4817671b2999c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 16/36] fix: accept blank lines after RSVP_LSP_TABLE in model
 files

---
 pyNTM/master_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index dd1531e..b7046da 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -15,6 +15,7 @@ from .interface import Interface
 from .node import Node
 from .rsvp import RSVP_LSP
 from .srlg import SRLG
+from .utilities import find_end_index
 
 from pprint import pprint
 
@@ -507,7 +508,9 @@ class _MasterModel(object):
 
         """
 
-        lsp_lines = lines[lsp_info_begin_index:]
+        # The table ends at the first blank line or at the end of the file
+        lsp_info_end_index = find_end_index(lsp_info_begin_index, lines)
+        lsp_lines = lines[lsp_info_begin_index:lsp_info_end_index]
         for lsp_line in lsp_lines:
             lsp_info = lsp_line.split("\t")
             source = lsp_info[0]
-- 
2.43.0


From 6e076a1ce1eb5a89d1cc387aa69d54e6d200a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 17/36] fix: keep renamed interfaces findable in
 interface_objects

---
 pyNTM/master_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index b7046da..c43edfc 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -706,7 +706,10 @@ class _MasterModel(object):
         :return: Interface with new name
         """
         interface_to_edit = self.get_interface_object(current_interface_name, node_name)
+        # The name is part of the Interface's hash, so re-add the Interface
+        self.interface_objects.discard(interface_to_edit)
         interface_to_edit.name = new_interface_name
+        self.interface_objects.add(interface_to_edit)
 
         return interface_to_edit
 
-- 
2.43.0


From 946cd13772667b0fac04542057496a5c2999d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 18/36] fix: traffic_on_lsp of an unrouted LSP is 0

It raised ValueError (min of an empty set) if no parallel LSP was routed.
---
 pyNTM/rsvp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..8f2bf50 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -275,6 +275,9 @@ class RSVP_LSP(object):
         :return: Units of traffic on the LSP
         """
 
+        if "Unrouted" in self.path:
+            return 0
+
         # Find all LSPs with same source and dest as self
         parallel_lsp_groups = model.parallel_lsp_groups()
 
-- 
2.43.0


From 216324b565c75c34f50535676032760f7fb3ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 19/36] fix: do not resignal LSPs that have a configured setup
 bandwidth

When part of a parallel LSP group could not route, the fixed LSPs that did were
resignaled for the group's traffic share.
---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index c43edfc..eb3a585 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -343,6 +343,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # An LSP with a configured_setup_bandwidth has a fixed reservation
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From e83b6d8cd1f941fa34322258beb249e94bd25778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 20/36] fix: setting manual_metric takes effect on LSPs with an
 initial manual metric

Until the initial metric had been read once, the assigned value was ignored.
---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 8f2bf50..7845ba3 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 489ccb0f405b6aac4fa640ead3b9f19cb9bed4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 21/36] fix: apply IGP shortcuts on every equal-cost path

---
 pyNTM/flex_model.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 1a8588f..8ae8e34 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -413,8 +413,17 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
+        finalized_paths = []
+
         # Substitute IGP enabled LSPs for Interfaces in paths
         for node_path in node_paths:
+            # Interface paths that follow node_path
+            interface_paths = [
+                path
+                for path in paths
+                if [interface.node_object.name for interface in path] == node_path[:-1]
+            ]
+
             # Find Nodes along the path that have igp_shortcuts_enabled and have
             # LSPs to downstream Nodes in the path
             path_lsps = []  # List of LSPs to substitute into path
@@ -471,21 +480,22 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
-            for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+            # Now that path_lsps is known, substitute those into path
+            if len(path_lsps) > 0:
+                for interface_path in interface_paths:
+                    finalized_path = self._insert_lsps_into_path(
+                        path_lsps, interface_path
+                    )
+                    if finalized_path != -1:
+                        for path in finalized_path:
+                            # finalized_path may be a list of lists, so add each component path
+                            if path not in finalized_paths:
+                                finalized_paths.append(path)
+                    else:
+                        finalized_paths.append(interface_path)
+            else:
+                # No LSPs available for shortcuts
+                finalized_paths += interface_paths
 
         return finalized_paths
 
-- 
2.43.0


From fb1e3eef155fc27fc29a9506c87767db9bec8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 22/36] fix: split traffic over IGP shortcuts by the items
 available at each hop

---
 pyNTM/flex_model.py | 78 ++++++++++-----------------------------------
 1 file changed, 17 insertions(+), 61 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8ae8e34..a92f3d4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -677,7 +677,7 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
+        next_items = self._find_next_items(demand.path)
 
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
@@ -722,17 +722,10 @@ class FlexModel(_MasterModel):
             total_splits = 1
 
             # Normalize any paths with LSPs
-            for item in path:
+            for hop_number, item in enumerate(path):
                 # Update the total cumulative splits in the path before
                 # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                total_splits = total_splits * len(next_items[tuple(path[:hop_number])])
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -764,61 +757,24 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
+    def _find_next_items(self, paths):
         """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
+        Determines which items (Interfaces, RSVP_LSPs) traffic splits across at
+        each point of the given paths.  The split at a Node depends on how the
+        traffic got there: paths that reach the Node over different items may
+        have different IGP shortcuts available past that Node.
 
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
+        :param paths: List of lists; each list contains Interfaces and/or RSVP LSPs along
+        each path from source to destination
 
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
-
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
-
-        Example output::
-
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
+        :return: a dict; each key is a tuple of the first items in a path and the value is
+        the set of unique items that follow those items in paths
         """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
+        next_items = {}
+        for path in paths:
+            for hop_number, item in enumerate(path):
+                next_items.setdefault(tuple(path[:hop_number]), set()).add(item)
+        return next_items
 
     def _insert_lsps_into_path(self, path_lsps, path):
         """
-- 
2.43.0


From 7fe0de138974beefdfbb319db424a3ad3001be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 23/36] fix: color edges whose utilization falls between two
 whole percents

---
 pyNTM/weathermap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..cc93dd0 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,8 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    # Ranges are in whole percents; utilization may have a fraction
+                    if lower <= int(utilization) <= upper:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From eb7102773e64f08cf35433d1200788aa805b9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 24/36] fix: WeatherMap works with node names that contain
 dashes

---
 pyNTM/weathermap.py | 111 ++++++++++++++++++++------------------------
 1 file changed, 50 insertions(+), 61 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index cc93dd0..70bc15b 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -361,6 +361,29 @@ class WeatherMap(object):  # pragma: no cover
                         interfaces_to_highlight.add(hop)
         return interfaces_to_highlight, lsps
 
+    def _source_dest_pairs(self, object_type):
+        """
+        Returns the unique (source name, destination name) pairs of the demands or
+        LSPs in the model.
+
+        :param object_type: Either 'demand' or 'lsp'
+
+        :return: List of (source Node name, destination Node name) tuples
+        """
+        if object_type == "demand":
+            groups = self.model.parallel_demand_groups()
+        else:
+            groups = self.model.parallel_lsp_groups()
+
+        # Node names may include '-', so use the grouped objects instead of the group names
+        pairs = []
+        for group in groups.values():
+            for item in group:
+                pair = (item.source_node_object.name, item.dest_node_object.name)
+                if pair not in pairs:
+                    pairs.append(pair)
+        return pairs
+
     def get_sources(self, destination, object_type):
         """
         Returns a list of sources in the model that have
@@ -378,14 +401,7 @@ class WeatherMap(object):  # pragma: no cover
             msg = "'object_type' value must be 'demand'|'lsp'"
             raise Exception(msg)
 
-        if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
-        elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+        source_dest_pairs = self._source_dest_pairs(object_type)
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
 
@@ -408,14 +424,7 @@ class WeatherMap(object):  # pragma: no cover
             msg = "'object_type' value must be 'demand'|'lsp'"
             raise Exception(msg)
 
-        if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
-        elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+        source_dest_pairs = self._source_dest_pairs(object_type)
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
 
@@ -869,8 +878,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs("demand"):
             demand_sources.add(source)
             demand_destinations.add(dest)
         demand_sources_list = list(demand_sources)
@@ -891,8 +899,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs("lsp"):
             lsp_sources.add(source)
             lsp_destinations.add(dest)
         lsp_sources_list = list(lsp_sources)
@@ -1261,16 +1268,12 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the lsps with specified destination
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                lsp_list = [
+                    lsp
+                    for lsp_group in self.model.parallel_lsp_groups().values()
+                    for lsp in lsp_group
+                    if lsp.dest_node_object.name == ctx_dest_inputs
                 ]
-                lsp_list = []
-
-                for src_key in src_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[src_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1283,16 +1286,12 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the lsps with specified source
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                lsp_list = [
+                    lsp
+                    for lsp_group in self.model.parallel_lsp_groups().values()
+                    for lsp in lsp_group
+                    if lsp.source_node_object.name == ctx_src_inputs
                 ]
-                lsp_list = []
-
-                for dest_key in dest_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[dest_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1371,16 +1370,12 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the demands with specified destination
-                dmd_keys = self.model.parallel_demand_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                demand_list = [
+                    dmd
+                    for dmd_group in self.model.parallel_demand_groups().values()
+                    for dmd in dmd_group
+                    if dmd.dest_node_object.name == ctx_dest_inputs
                 ]
-                demand_list = []
-
-                for src_key in src_keys:
-                    demand_list += model.parallel_demand_groups()[src_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1394,16 +1389,12 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the demands with specified source
-                dmd_keys = model.parallel_demand_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                demand_list = [
+                    dmd
+                    for dmd_group in model.parallel_demand_groups().values()
+                    for dmd in dmd_group
+                    if dmd.source_node_object.name == ctx_src_inputs
                 ]
-                demand_list = []
-
-                for dest_key in dest_keys:
-                    demand_list += model.parallel_demand_groups()[dest_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1518,11 +1509,9 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From 855b188b2caa6719c77f2ee09738c585ed91b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 25/36] fix: add_circuit uses the model's nodes and refuses
 unknown ones

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index a92f3d4..1b27619 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1242,6 +1242,10 @@ class FlexModel(_MasterModel):
             )
             raise ModelException(err_msg)
 
+        # Use the model's own Nodes; raises ModelException if they are not in the model
+        node_a_object = self.get_node_object(node_a_object.name)
+        node_b_object = self.get_node_object(node_b_object.name)
+
         int_a = Interface(
             node_a_interface_name,
             cost_intf_a,
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index f180c45..5da0b65 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -697,6 +697,10 @@ class PerformanceModel(_MasterModel):
         if circuit_id is None:
             circuit_ids = self.all_interface_circuit_ids
             circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
+        # Use the model's own Nodes; raises ModelException if they are not in the model
+        node_a_object = self.get_node_object(node_a_object.name)
+        node_b_object = self.get_node_object(node_b_object.name)
+
         int_a = Interface(
             node_a_interface_name,
             cost_intf_a,
-- 
2.43.0


From 5b315a22d85280843461f7462fd482ddefbfd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 26/36] fix: leave the model unchanged when added interfaces
 are refused

---
 pyNTM/flex_model.py        |  9 ++-------
 pyNTM/master_model.py      | 21 +++++++++++++++++++++
 pyNTM/performance_model.py |  9 ++-------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 1b27619..8e85db0 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -114,9 +114,7 @@ class FlexModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
-        self.node_objects = self.node_objects.union(new_node_objects)
-        self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+        self._add_validated(new_interface_objects, new_node_objects)
 
     def validate_model(self):
         """
@@ -1280,10 +1278,7 @@ class FlexModel(_MasterModel):
         int_a.failed = failed
         int_b.failed = failed
 
-        self.interface_objects.add(int_a)
-        self.interface_objects.add(int_b)
-
-        self.validate_model()
+        self._add_validated({int_a, int_b})
 
     def get_all_paths_reservable_bw(
         self,
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index eb3a585..db65c13 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1202,6 +1202,27 @@ class _MasterModel(object):
                 if lsp._key == needed_key:
                     return lsp
 
+    def _add_validated(self, new_interface_objects, new_node_objects=frozenset()):
+        """
+        Adds Interfaces and Nodes to the model and validates it; the model is
+        left as it was if it would not be valid with them.
+
+        :param new_interface_objects: set of Interface objects
+        :param new_node_objects: set of Node objects
+        :return: None
+        """
+        previous = self.interface_objects, self.node_objects
+        self.interface_objects = self.interface_objects.union(new_interface_objects)
+        self.node_objects = self.node_objects.union(new_node_objects)
+
+        try:
+            self.validate_model()
+        except ModelException:
+            self.interface_objects, self.node_objects = previous
+            # Match the remaining Interfaces into Circuits again
+            self.validate_model()
+            raise
+
     def _make_network_interfaces(self, interface_info_list):
         """
         Returns set of Interface objects and a set of Node objects for Nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5da0b65..5edd5c7 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -122,9 +122,7 @@ class PerformanceModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
-        self.node_objects = self.node_objects.union(new_node_objects)
-        self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+        self._add_validated(new_interface_objects, new_node_objects)
 
     def validate_model(self):
         """
@@ -737,10 +735,7 @@ class PerformanceModel(_MasterModel):
         int_a.failed = failed
         int_b.failed = failed
 
-        self.interface_objects.add(int_a)
-        self.interface_objects.add(int_b)
-
-        self.validate_model()
+        self._add_validated({int_a, int_b})
 
     def get_all_paths_reservable_bw(
         self,
-- 
2.43.0


From 54b5b6e2c0a946a3380c7607142f301d89c06c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:27 +0000
Subject: [PATCH 27/36] fix: FlexModel rejects a circuit id used by other than
 two interfaces

---
 pyNTM/flex_model.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8e85db0..cec643c 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -16,6 +16,7 @@ This model type allows multiple links/parallel links between 2 nodes.
 There will be a performance impact in this model variant.
 """
 
+from collections import Counter
 from datetime import datetime
 from pprint import pprint
 
@@ -158,6 +159,9 @@ class FlexModel(_MasterModel):
         if unique_interfaces_per_node is not True:
             error_data.append(unique_interfaces_per_node)
 
+        # Validate that each circuit_id bonds exactly two interfaces
+        error_data.extend(self._circuit_id_errors())
+
         # Make validate_model() check for matching failed statuses
         # on the interfaces and matching interface capacity
         circuits_with_mismatched_interface_capacity = []
@@ -212,6 +216,24 @@ class FlexModel(_MasterModel):
         else:
             return self
 
+    def _circuit_id_errors(self):
+        """
+        Finds the specified circuit_ids that do not bond exactly two Interfaces
+
+        :return: list with one error dict for each such circuit_id
+        """
+        circuit_id_counts = Counter(
+            interface.circuit_id
+            for interface in self.interface_objects
+            if interface.circuit_id is not None
+        )
+
+        return [
+            {"circuit_id_not_on_two_interfaces": circuit_id, "interfaces": count}
+            for circuit_id, count in circuit_id_counts.items()
+            if count != 2
+        ]
+
     def update_simulation(self):
         """
         Updates the simulation state; this needs to be run any time there is
-- 
2.43.0


From 8cf853292cfdde0939215e2b30ca2c7266576ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:00 +0000
Subject: [PATCH 28/36] fix: fail both ends of a circuit before routing when
 one end or its node is failed

---
 pyNTM/flex_model.py        |  3 +++
 pyNTM/master_model.py      | 28 ++++++++++++++++++++++++++++
 pyNTM/performance_model.py |  3 +++
 3 files changed, 34 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index cec643c..d4fe876 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -246,6 +246,9 @@ class FlexModel(_MasterModel):
 
         self._parallel_lsp_groups = {}  # Reset the attribute
 
+        # A failed Node or Interface fails its Circuits
+        self._match_circuit_failures(match_circuit_id=True)
+
         # This set of interfaces can be used to route traffic
         non_failed_interfaces = set()
         # This set of nodes can be used to route traffic
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index db65c13..983edba 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -154,6 +154,34 @@ class _MasterModel(object):
                 ] += lsp.reserved_bandwidth
         return int_info
 
+    def _match_circuit_failures(self, match_circuit_id):
+        """
+        Fails both Interfaces of each Circuit that has a failed Interface or is
+        attached to a failed Node, as neither end of such a Circuit can carry
+        traffic.
+
+        :param match_circuit_id: True if there may be multiple Circuits between
+        2 Nodes, so that circuit_ids tell which Interfaces are matched
+        :return: None
+        """
+        circuits = {}
+        for interface in self.interface_objects:
+            node_names = frozenset(
+                (interface.node_object.name, interface.remote_node_object.name)
+            )
+            circuit_id = interface.circuit_id if match_circuit_id else None
+            circuits.setdefault((node_names, circuit_id), []).append(interface)
+
+        for interfaces in circuits.values():
+            if any(
+                interface.failed
+                or interface.node_object.failed
+                or interface.remote_node_object.failed
+                for interface in interfaces
+            ):
+                for interface in interfaces:
+                    interface.failed = True
+
     def _validate_circuit_interface_capacity(
         self, circuits_with_mismatched_interface_capacity, ckt
     ):
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5edd5c7..96cfbfb 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -257,6 +257,9 @@ class PerformanceModel(_MasterModel):
 
         self._parallel_lsp_groups = {}  # Reset the attribute
 
+        # A failed Node or Interface fails its Circuits
+        self._match_circuit_failures(match_circuit_id=False)
+
         # This set of interfaces can be used to route traffic
         non_failed_interfaces = set()
         # This set of nodes can be used to route traffic
-- 
2.43.0


From f6b9464cfc3d9ff259725675fddae2cf1a9d4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 29/36] fix: the WeatherMap lists no interfaces for an unrouted
 demand

---
 pyNTM/weathermap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 70bc15b..04dc0d4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -350,6 +350,9 @@ class WeatherMap(object):  # pragma: no cover
         interfaces_to_highlight = set()
         lsps = set()
         for dmd in dmds:
+            # An unrouted demand transits nothing
+            if dmd.path == "Unrouted":
+                continue
             dmd_path = dmd.path[:]
             for path in dmd_path:
                 for hop in path:
-- 
2.43.0


From 74f5ea15de8a06ec6a2d55a140997b326477e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:58 +0000
Subject: [PATCH 30/36] fix: add_circuit to a PerformanceModel that was not
 validated yet

---
 pyNTM/performance_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 96cfbfb..926c688 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -696,8 +696,13 @@ class PerformanceModel(_MasterModel):
         """
 
         if circuit_id is None:
-            circuit_ids = self.all_interface_circuit_ids
-            circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
+            # Interfaces have no circuit_id yet if the model was never validated
+            circuit_ids = [
+                existing_id
+                for existing_id in self.all_interface_circuit_ids
+                if isinstance(existing_id, int)
+            ]
+            circuit_id = max(circuit_ids, default=0) + 1
         # Use the model's own Nodes; raises ModelException if they are not in the model
         node_a_object = self.get_node_object(node_a_object.name)
         node_b_object = self.get_node_object(node_b_object.name)
-- 
2.43.0


From 995c65dfb7bac7a4c60ebc340a131e0c5210e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:36 +0000
Subject: [PATCH 31/36] fix: a negative configured setup bandwidth of an LSP is
 refused when given

It was accepted, and the LSP then reserved a negative amount on its path.
---
 pyNTM/rsvp.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 7845ba3..0d87097 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -109,6 +109,24 @@ class RSVP_LSP(object):
 
         return candidate_path_info
 
+    @property
+    def configured_setup_bandwidth(self):
+        """
+        The setup bandwidth configured for the LSP; None if there is none
+
+        :return: the configured setup bandwidth
+        """
+
+        return self._configured_setup_bandwidth
+
+    @configured_setup_bandwidth.setter
+    def configured_setup_bandwidth(self, value):
+        if value is not None and value < 0:
+            msg = "configured_setup_bandwidth must be 0 or greater"
+            raise ModelException(msg)
+
+        self._configured_setup_bandwidth = value
+
     @property
     def setup_bandwidth(self):
         """
-- 
2.43.0


From c79074d3398b5ec7fae2d4de129d954883287048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 32/36] fix: a manual metric given to an LSP when created is
 checked at once

Only assignments were: a bad value passed to RSVP_LSP() raised an error later,
wherever the metric was first read, and 0 was silently dropped.
---
 pyNTM/rsvp.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 0d87097..1b822d6 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -46,7 +46,9 @@ class RSVP_LSP(object):
         self._setup_bandwidth = "Unrouted - initial"
         self.configured_setup_bandwidth = configured_setup_bandwidth
         self._manual_metric = "not set"
-        self.initial_manual_metric = configured_manual_metric
+        if configured_manual_metric is not None:
+            # Check the value now, rather than when the metric is first used
+            self.manual_metric = configured_manual_metric
 
     @property
     def _key(self):
@@ -168,30 +170,13 @@ class RSVP_LSP(object):
 
         """
 
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-            else:
-                msg = (
-                    "RSVP LSP metric must be positive integer value.  Or, set manual_metric "
-                    "to -1 to clear the manual_metric and have the LSP inherit "
-                    "the default metric (that of the shortest path)"
-                )
-                raise ModelException(msg)
-
         return self._manual_metric
 
     @manual_metric.setter
     def manual_metric(self, value):
         if isinstance(value, int) and value > 0:
-            self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-            self.initial_manual_metric = None
             self._manual_metric = "not set"
         else:
             msg = (
@@ -338,7 +323,6 @@ class RSVP_LSP(object):
         :return: metric for the LSP's shortest possible path
         """
         if self.manual_metric != "not set":
-            self.initial_manual_metric = None
             return self.manual_metric
         elif "Unrouted" in self.path:
             return "Unrouted"
-- 
2.43.0


From dae252e2366402d7e804d5a5b10ddc71e17cbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 33/36] fix: keep LSP and demand groups of different nodes
 apart

Groups were kept by the text source-dest, so the LSPs and demands of A to B-C
and of A-B to C were taken for one another: LSPs were never signaled, or
demands rode another pair's LSPs. Groups are now kept by the pair of names;
the documented keys of parallel_lsp_groups() and parallel_demand_groups() stay.
---
 pyNTM/flex_model.py        | 14 +++---
 pyNTM/master_model.py      | 94 +++++++++++++++++++-------------------
 pyNTM/performance_model.py | 10 ++--
 pyNTM/rsvp.py              |  4 +-
 pyNTM/weathermap.py        | 12 ++---
 5 files changed, 66 insertions(+), 68 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index d4fe876..89cb538 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -322,13 +322,11 @@ class FlexModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsps_by_ends()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -475,9 +473,9 @@ class FlexModel(_MasterModel):
                         # the destination we are iterating through and whose effective metric matches the
                         # shortest path from source_node to destination
 
-                        key = "{}-{}".format(source_node.name, destination)
+                        key = (source_node.name, destination)
                         try:
-                            candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                            candidate_lsps_for_demand = self._lsps_by_ends()[key]
                             min_metric = min(
                                 lsp.effective_metric(self)
                                 for lsp in candidate_lsps_for_demand
@@ -574,14 +572,14 @@ class FlexModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsps_by_ends()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 983edba..67c8b57 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -252,10 +252,10 @@ class _MasterModel(object):
             interface.reserved_bandwidth = 0
 
         # Find parallel LSP groups
-        parallel_lsp_groups = self.parallel_lsp_groups()
+        parallel_lsp_groups = self._lsps_by_ends()
 
         # Find all the parallel demand groups
-        parallel_demand_groups = self.parallel_demand_groups()
+        parallel_demand_groups = self._group_by_ends(self.demand_objects)
 
         # Route the LSPs by parallel group
         self._route_parallel_lsp_groups(parallel_demand_groups, parallel_lsp_groups)
@@ -267,10 +267,10 @@ class _MasterModel(object):
         Routes LSPs with same source, dest (parallel LSPs) based on the demands that would
         take those LSPs.  For each LSP, determine a 'path' attribute.
 
-        :param parallel_demand_groups: dict with keys = source_node-dest_node and values being a
-        list of all demands with the common corresponding source and dest nodes
-        :param parallel_lsp_groups: dict with keys = source_node-dest_node and values being a
-        list of all LSPs with the common corresponding source and dest nodes
+        :param parallel_demand_groups: dict with keys = (source_node_name, dest_node_name) and
+        values being a list of all demands with the common corresponding source and dest nodes
+        :param parallel_lsp_groups: dict with keys = (source_node_name, dest_node_name) and
+        values being a list of all LSPs with the common corresponding source and dest nodes
         :return: None; assigns path to each LSP
         """
         # Counter for LSP groups
@@ -283,7 +283,10 @@ class _MasterModel(object):
 
             print(
                 "Routing {} LSPs in parallel LSP group {}; {}/{}".format(
-                    num_lsps_in_group, group, counter, len(parallel_lsp_groups)
+                    num_lsps_in_group,
+                    "{}-{}".format(*group),
+                    counter,
+                    len(parallel_lsp_groups),
                 )
             )
             # Traffic each LSP in a parallel LSP group will carry; initialize
@@ -410,29 +413,7 @@ class _MasterModel(object):
 
         """
 
-        if self._parallel_lsp_groups != {}:
-            return self._parallel_lsp_groups
-        src_node_names = {lsp.source_node_object.name for lsp in self.rsvp_lsp_objects}
-        dest_node_names = {lsp.dest_node_object.name for lsp in self.rsvp_lsp_objects}
-
-        parallel_lsp_groups = {}
-
-        for src_node_name in src_node_names:
-            for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
-                parallel_lsp_groups[key] = []
-                for lsp in self.rsvp_lsp_objects:
-                    if (
-                        lsp.source_node_object.name == src_node_name
-                        and lsp.dest_node_object.name == dest_node_name
-                    ):
-                        parallel_lsp_groups[key].append(lsp)
-
-                if not parallel_lsp_groups[key]:
-                    del parallel_lsp_groups[key]
-
-        self._parallel_lsp_groups = parallel_lsp_groups
-        return parallel_lsp_groups
+        return self._name_groups(self._lsps_by_ends())
 
     def parallel_demand_groups(self):
         """
@@ -449,26 +430,47 @@ class _MasterModel(object):
             'F-E': [Demand(source = F, dest = E, traffic = 400, name = 'dmd_f_e_1')]}
         """
 
-        src_node_names = {dmd.source_node_object.name for dmd in self.demand_objects}
-        dest_node_names = {dmd.dest_node_object.name for dmd in self.demand_objects}
+        return self._name_groups(self._group_by_ends(self.demand_objects))
+
+    def _lsps_by_ends(self):
+        """
+        Groups the LSPs by their source and dest nodes
+
+        :return: dict with entries where key is (source node name, dest node name) and value is
+        a list of LSPs with matching source/dest nodes
+        """
+        if self._parallel_lsp_groups == {}:
+            self._parallel_lsp_groups = self._group_by_ends(self.rsvp_lsp_objects)
+        return self._parallel_lsp_groups
 
-        parallel_demand_groups = {}
+    def _group_by_ends(self, items):
+        """
+        Groups Demands or LSPs by their source and dest nodes
 
-        for src_node_name in src_node_names:
-            for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
-                parallel_demand_groups[key] = []
-                for dmd in self.demand_objects:
-                    if (
-                        dmd.source_node_object.name == src_node_name
-                        and dmd.dest_node_object.name == dest_node_name
-                    ):
-                        parallel_demand_groups[key].append(dmd)
+        :param items: Demand or RSVP_LSP objects
 
-                if parallel_demand_groups[key] == []:
-                    del parallel_demand_groups[key]
+        :return: dict with entries where key is (source node name, dest node name) and value is
+        a list of items with matching source/dest nodes
+        """
+        groups = {}
+        for item in items:
+            key = (item.source_node_object.name, item.dest_node_object.name)
+            groups.setdefault(key, []).append(item)
+        return groups
 
-        return parallel_demand_groups
+    def _name_groups(self, groups):
+        """
+        Names groups of Demands or LSPs 'source_node_name-dest_node_name'; groups
+        whose names coincide, as those of 'A' to 'B-C' and 'A-B' to 'C', are joined
+
+        :param groups: dict with keys of (source node name, dest node name)
+
+        :return: dict with keys of 'source_node_name-dest_node_name'
+        """
+        named_groups = {}
+        for ends, items in groups.items():
+            named_groups.setdefault("{}-{}".format(*ends), []).extend(items)
+        return named_groups
 
     def _unique_interface_per_node(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 926c688..a1792e0 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -331,13 +331,11 @@ class PerformanceModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsps_by_ends()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -1275,14 +1273,14 @@ class PerformanceModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsps_by_ends()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 1b822d6..6c8d65f 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -275,11 +275,11 @@ class RSVP_LSP(object):
             return 0
 
         # Find all LSPs with same source and dest as self
-        parallel_lsp_groups = model.parallel_lsp_groups()
+        parallel_lsp_groups = model._lsps_by_ends()
 
         total_traffic = sum(demand.traffic for demand in self.demands_on_lsp(model))
 
-        key = "{}-{}".format(self.source_node_object.name, self.dest_node_object.name)
+        key = (self.source_node_object.name, self.dest_node_object.name)
         parallel_routed_lsps = [
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 04dc0d4..7fd9fea 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1059,8 +1059,8 @@ class WeatherMap(object):  # pragma: no cover
                 destination = demand_dict["dest"]
                 # Find the demands that match the source and destination
                 try:
-                    dmds = self.model.parallel_demand_groups()[
-                        "{}-{}".format(source, destination)
+                    dmds = self.model._group_by_ends(self.model.demand_objects)[
+                        (source, destination)
                     ]
                 except KeyError:
                     return default_stylesheet + new_style
@@ -1255,8 +1255,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                lsp_list = self.model.parallel_lsp_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                lsp_list = self.model._lsps_by_ends()[key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1358,8 +1358,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                demand_list = self.model.parallel_demand_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                demand_list = self.model._group_by_ends(self.model.demand_objects)[key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
-- 
2.43.0


From 72083d69133aefd4f007f2d85aef45d428be21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:58 +0000
Subject: [PATCH 34/36] fix: circuits of different nodes never share a midpoint
 on the WeatherMap

Midpoints were told apart by their label alone, so the circuits A to B-C and
A-B to C, or a node named like a midpoint, were drawn through one point.
---
 pyNTM/weathermap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 7fd9fea..077b8ea 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -466,6 +466,8 @@ class WeatherMap(object):  # pragma: no cover
 
         edges = []
         nodes = []
+        # What each label in use stands for: a node, or the midpoint of 2 nodes
+        labels = {node.name: node.name for node in self.model.node_objects}
         for ckt in self.model.circuit_objects:
             int_a = ckt.interface_a
             int_b = ckt.interface_b
@@ -498,6 +500,10 @@ class WeatherMap(object):  # pragma: no cover
                 midpoint_label = "midpoint-{}-{}".format(node_a.name, node_b.name)
             else:
                 midpoint_label = "midpoint-{}".format(ckt_id)
+            # Different nodes may have names that make the same label
+            midpoint = (node_a.name, node_b.name) if group_midpoints else (ckt_id,)
+            while labels.setdefault(midpoint_label, midpoint) != midpoint:
+                midpoint_label += "'"
             new_node = self.make_json_node(
                 midpoint_x,
                 midpoint_y,
-- 
2.43.0


From 816ee5416a17a4366095003f07d5ee794d571d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:50 +0000
Subject: [PATCH 35/36] fix: display_demand_paths shows no paths for an
 unrouted demand

It counted and printed the letters of the word Unrouted as eight paths.
---
 pyNTM/master_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 67c8b57..6579f69 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -957,8 +957,9 @@ class _MasterModel(object):
 
         for demand in demand_iter:
             print("demand._key is", demand._key)
-            print("Demand has %s paths:" % (len(demand.path)))
-            for path in demand.path:
+            paths = [] if demand.path == "Unrouted" else demand.path
+            print("Demand has %s paths:" % (len(paths)))
+            for path in paths:
                 pprint(path)
                 print()
             print()
-- 
2.43.0


From 0958095f0055ef80b5430c38b304347d5e8a38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 36/36] fix: an interrupted path query raises rather than
 answering with a part

The queries caught BaseException where only NetworkX's own errors (no path, no
such node) mean an empty answer, so Ctrl-C returned the paths found so far.
---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/performance_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 89cb538..0706afd 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1368,7 +1368,7 @@ class FlexModel(_MasterModel):
             for path in digraph_unique_paths:
                 model_path = self._convert_nx_path_to_model_path(path, G)
                 converted_path["path"].append(model_path)
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
@@ -1412,7 +1412,7 @@ class FlexModel(_MasterModel):
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
@@ -1454,7 +1454,7 @@ class FlexModel(_MasterModel):
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index a1792e0..a226b88 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -802,7 +802,7 @@ class PerformanceModel(_MasterModel):
                 model_path = self._convert_nx_path_to_model_path(path)
                 converted_path["path"].append(model_path)
             return converted_path
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
     def get_shortest_path(self, source_node_name, dest_node_name, needed_bw=0):
@@ -841,7 +841,7 @@ class PerformanceModel(_MasterModel):
                 )
 
             return converted_path
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
     def get_shortest_path_for_routed_lsp(
@@ -889,7 +889,7 @@ class PerformanceModel(_MasterModel):
                     G, source_node_name, dest_node_name, weight="cost"
                 )
             return converted_path
-        except BaseException:
+        except nx.NetworkXException:
             return converted_path
 
     def _convert_nx_path_to_model_path(self, nx_graph_path):
-- 
2.43.0

