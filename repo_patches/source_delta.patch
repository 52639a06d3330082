From e861458d0c1d6e9608906132fe2dcb2d9a0ce936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 01/36] fix: a layer pair without overlap spec no longer drops
 the remaining overlaps of the polygon

---
 klayout_pex/rcx25/c/overlap_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..d00a8d5 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -118,11 +118,11 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
-- 
2.43.0


From e3c9d4e05a6da7b3e7a88a00d0e21fe3c7494864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 02/36] fix: side overlap coefficients of a layer without
 substrate capacitance no longer raise KeyError

---
 klayout_pex/tech_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..92d5bc2 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -395,7 +395,10 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                if k1 not in d:
+                    d[k1] = {k2: v}
+                else:
+                    d[k1][k2] = v
 
         return d
 
-- 
2.43.0


From ff3cb29c0a50c2b17b813ec8e56b1366032b6911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 03/36] fix: MultipleChoicePattern.is_included agrees with
 filter for patterns without all/none

---
 klayout_pex/util/multiple_choice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..f334e2c 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -62,8 +62,6 @@ class MultipleChoicePattern:
         return [c for c in choices if c in self.included]
 
     def is_included(self, choice: str) -> bool:
-        if self.has_none:
-            return choice in self.included
         if self.has_all:
             return choice not in self.excluded
-        return False
+        return choice in self.included
-- 
2.43.0


From 95642c477cf438392dc2d5e368508ae290f7ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 04/36] fix: is_skinny_tri returns the index of the obtuse
 corner

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From b4c03649b5e4072c876ea4f0d0be538843981222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 05/36] fix: a via layer without bottom/top layer no longer
 leaves an empty via in the resistance technology

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..b73bb20 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -188,13 +188,14 @@ class RExtractor:
                             warning(f"ignoring layer {canonical_layer_name}, no via resistance found in tech info")
                             continue
                         for source_layer in li.source_layers:
-                            via = rex_tech.vias.add()
                             bot_top = tech.bottom_and_top_layer_name_by_via_computed_layer_name.get(
                                 source_layer.lvs_layer_name, None)
                             if bot_top is None:
                                 warning(f"ignoring layer {canonical_layer_name} (LVS {source_layer.lvs_layer_name}), no bottom/top layers found in tech info")
                                 continue
 
+                            via = rex_tech.vias.add()
+
                             (bot, top) = bot_top
                             bot_gds_pair = tech.gds_pair(bot)
                             top_gds_pair = tech.gds_pair(top)
-- 
2.43.0


From bc8434950a70f7be188c5605bad22abbf55ad38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 06/36] fix: shapes of unnamed nets are found under the
 expanded name they are annotated with

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..86cf647 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +397,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b73bb20..776b226 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -268,7 +268,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 6e08662c813bb2f6c7b8c306251105bc6f51b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 07/36] fix: unconnected device terminals no longer abort the
 device collection

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 86cf647..821be7e 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -375,10 +375,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
-- 
2.43.0


From c7d03bcb104271d82f984b8459297b0deddd8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 08/36] fix: polygons with holes no longer lose their holes
 when converted to messages

---
 klayout_pex/klayout/shapes_pb2_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..999935e 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: the message only has a hull, so holes are connected to it by cut lines
+        for p_kly in polygon_kly.resolved_holes().each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From 96b3c1edcb8db11dcc14f5bceee00ba9766ec8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 09/36] fix: internal resistor nodes of different nets no
 longer share a net name

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 776b226..e8b6fb7 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -366,7 +366,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: node names are only unique within the network of a net
+                        r_node.net_name = f"{result_network.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 567ebe8f47984520e1cbc0799755e7054e0e3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 10/36] fix: resistors between the same two nodes are
 summarized as parallel resistors

---
 klayout_pex/rcx25/extraction_results.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_results.py b/klayout_pex/rcx25/extraction_results.py
index c3caad0..fd65b39 100644
--- a/klayout_pex/rcx25/extraction_results.py
+++ b/klayout_pex/rcx25/extraction_results.py
@@ -134,6 +134,17 @@ class NetCoupleKey:
             return NetCoupleKey(self.net2, self.net1)
 
 
+def add_parallel_resistance(table: Dict[NetCoupleKey, float],
+                            key: NetCoupleKey,
+                            resistance: float):
+    """Resistors between the same two nodes are connected in parallel, their conductances add up"""
+    if key in table:
+        r = table[key]
+        table[key] = r * resistance / (r + resistance) if r + resistance > 0.0 else 0.0
+    else:
+        table[key] = resistance
+
+
 @dataclass
 class ExtractionSummary:
     capacitances: Dict[NetCoupleKey, float]
@@ -142,12 +153,12 @@ class ExtractionSummary:
     @classmethod
     def merged(cls, summaries: List[ExtractionSummary]) -> ExtractionSummary:
         merged_capacitances = defaultdict(float)
-        merged_resistances = defaultdict(float)
+        merged_resistances = {}
         for s in summaries:
             for couple_key, cap in s.capacitances.items():
                 merged_capacitances[couple_key.normed()] += cap
             for couple_key, res in s.resistances.items():
-                merged_resistances[couple_key.normed()] += res
+                add_parallel_resistance(merged_resistances, couple_key.normed(), res)
         return ExtractionSummary(capacitances=merged_capacitances,
                                  resistances=merged_resistances)
 
@@ -193,7 +204,7 @@ class CellExtractionResults:
         sideoverlap_summary = ExtractionSummary(capacitances=normalized_sideoverlap_table,
                                                 resistances={})
 
-        normalized_resistance_table: Dict[NetCoupleKey, float] = defaultdict(float)
+        normalized_resistance_table: Dict[NetCoupleKey, float] = {}
 
         for network in self.r_extraction_result.networks:
             node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}
@@ -202,8 +213,8 @@ class CellExtractionResults:
                 node_b = node_by_id[element.node_b.node_id]
                 resistance = element.resistance
                 normalized_key = NetCoupleKey(node_a.net_name, node_b.net_name).normed()
-                normalized_resistance_table[normalized_key] += resistance
-                
+                add_parallel_resistance(normalized_resistance_table, normalized_key, resistance)
+
         resistance_summary = ExtractionSummary(capacitances={},
                                                resistances=normalized_resistance_table)
 
-- 
2.43.0


From d2c136727f07025a1c761944097231fca0096d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 11/36] fix: expanded 2.5D netlist carries capacitances in
 farad instead of femtofarad

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..2a33d4c 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From 022ea9a04b3bcb0dfd0f7012c6b5069386eb871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 12/36] fix: netlist expansion reuses existing VSUBS/FC_GND
 nets instead of creating disconnected duplicates

---
 klayout_pex/klayout/netlist_expander.py | 5 +++--
 klayout_pex/rcx25/netlist_expander.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..f9ecb30 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -56,8 +56,9 @@ class NetlistExpander:
         cap.description = "Extracted by kpex/FasterCap PEX"
         expanded_netlist.add(cap)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        # NOTE: reuse existing nets, another net of the same name would be a different node
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # GROUND net
+        vsubs_net = top_circuit.net_by_name('VSUBS') or top_circuit.create_net('VSUBS')
         nets: List[kdb.Net] = []
 
         # build table: name -> net
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 2a33d4c..3198a93 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -80,8 +80,9 @@ class RCX25NetlistExpander:
         res.description = "Extracted by KPEX/2.5D"
         expanded_netlist.add(res)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        # NOTE: reuse existing nets, another net of the same name would be a different node
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # GROUND net
+        vsubs_net = top_circuit.net_by_name('VSUBS') or top_circuit.create_net('VSUBS')
 
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
-- 
2.43.0


From f149b483e361f1d66b4f0120e23a968b826c2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 13/36] fix: netlist CSV names unnamed nets by their expanded
 name instead of an empty cell

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From a403c31d0629b60430631a9bb831ef80cefbf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 14/36] fix: subcircuit instances of the same circuit no longer
 overwrite each other in the netlist JSON

---
 klayout_pex/netlistsvg/netlist_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..e64c3cd 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,7 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From a408d030522958a7ee485993c8819cbe3fc33018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 15/36] fix: FastCap matrix rows with several spaces before the
 index are parsed correctly

---
 klayout_pex/fastcap/fastcap_runner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..2512a8b 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -129,11 +129,10 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
+                    cells = line.split()  # NOTE: columns can be separated by multiple spaces
                     if cells[1] != str(i):
                         warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From 40aed4f11a5f45562f01581bf7b753f39156eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:07 +0000
Subject: [PATCH 16/36] fix: FastCap capacitance matrix unit is taken into
 account

---
 klayout_pex/fastcap/fastcap_runner.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2512a8b..19a0f58 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -109,6 +109,19 @@ def run_fastcap(exe_path: str,
 # $1%GROUP2 2      -7277  3.778e+05      130.9 -3.682e+05
 # $2%GROUP3 3      -2115      130.9       6792      -5388
 # $2%GROUP3 4      54.97 -3.682e+05      -5388  3.753e+05
+#
+# NOTE: FastCap chooses the unit depending on the magnitude of the values, we norm to picofarads
+PICOFARADS_PER_UNIT = {
+    'attofarads': 1e-6,
+    'femtofarads': 1e-3,
+    'picofarads': 1.0,
+    'nanofarads': 1e3,
+    'microfarads': 1e6,
+    'millifarads': 1e9,
+    'farads': 1e12,
+}
+
+
 def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
     with open(log_path, 'r') as f:
         rlines = f.readlines()
@@ -121,6 +134,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                if unit_str not in PICOFARADS_PER_UNIT:
+                    raise Exception(f"Unknown capacitor unit {unit_str}")
+                scale = PICOFARADS_PER_UNIT[unit_str]
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -134,7 +150,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                         warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
                     cells.pop(1)
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell) * scale / 1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 73da9894ef1faad37571ee072bff29ea50c56d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 17/36] fix: Magic nets and nodes with characters other than
 letters, digits and _ are no longer dropped

---
 klayout_pex/magic/magic_ext_file_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..acf6c97 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,7 +101,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
@@ -133,7 +133,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
@@ -143,7 +143,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>-?[\d\\.]+)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From 3820d05f479e190f58d8fdfe6104be2febc94a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 18/36] fix: Magic report markers are rounded to the grid
 instead of truncated

---
 klayout_pex/magic/magic_log_analyzer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..d6a85bf 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -67,13 +67,17 @@ class MagicLogAnalyzer:
 
         dbu_to_um = 200.0
 
+        # NOTE: kdb.Box truncates floating point coordinates, so we have to round
+        def box_dbu(x_bot: float, y_bot: float, x_top: float, y_top: float) -> kdb.Box:
+            return kdb.Box(round(x_bot), round(y_bot), round(x_top), round(y_top))
+
         def box_for_point_dbu(x: float, y: float) -> kdb.Box:
-            return kdb.Box(x, y, x + 20, y + 20)
+            return box_dbu(x, y, x + 20, y + 20)
 
         for p in cell_data.ext_data.ports:
             port_cat = self.report.create_category(parent=ports_cat, name=f"{p.net} ({p.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(p.x_bot / dbu_to_um / self.dbu,
+            shapes.insert(box_dbu(p.x_bot / dbu_to_um / self.dbu,
                                   p.y_bot / dbu_to_um / self.dbu,
                                   p.x_top / dbu_to_um / self.dbu,
                                   p.y_top / dbu_to_um / self.dbu))
@@ -92,7 +96,7 @@ class MagicLogAnalyzer:
             device_cat = self.report.create_category(parent=devices_cat,
                                                      name=f"Type={d.device_type} Model={d.model}")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
+            shapes.insert(box_dbu(d.x_bot / dbu_to_um / self.dbu,
                                   d.y_bot / dbu_to_um / self.dbu,
                                   d.x_top / dbu_to_um / self.dbu,
                                   d.y_top / dbu_to_um / self.dbu))
-- 
2.43.0


From 5eba8fa81be61b05432bfce08d956a349bd52e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 19/36] fix: default output path of the Magic log analyzer is
 used

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index d6a85bf..5aaeffe 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -152,7 +152,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 4851664dae42a42b88c173ddc7f230b8504c9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 20/36] fix: run_fastcap accepts an input file in the current
 directory

---
 klayout_pex/fastcap/fastcap_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 19a0f58..e4922b5 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -46,7 +46,7 @@ def run_fastcap(exe_path: str,
                 partitioning_depth: str = 'auto',
                 permittivity_factor: float = 1.0,
                 iterative_tolerance: float = 0.01):
-    work_dir = os.path.dirname(lst_file_path)
+    work_dir = os.path.dirname(os.path.abspath(lst_file_path))
 
     # we have to chdir into the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
-- 
2.43.0


From 22ad24e4390de1fd94cdd1479f050c48a0b8b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 21/36] fix: 1 and 0 are accepted as boolean arguments

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From cc63ce6f5c09bfd70c689792fec1211e217efefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 22/36] fix: repair of marker databases handles escaped
 characters and quotes in category names

---
 klayout_pex/klayout/repair_rdb.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..8b55bc5 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -48,9 +48,21 @@ from ..log import (
 def parse_category_path(category_path: str) -> List[str]:
     within_escaped = False
     within_backslash = False
+    octal_digits = ''
+    octal_bytes = b''  # NOTE: KLayout escapes each byte (UTF-8) of non-ASCII characters
     current_word = ''
     path_list = []
     for c in category_path:
+        if within_backslash and c in '01234567':
+            octal_digits += c
+            if len(octal_digits) == 3:
+                octal_bytes += bytes([int(octal_digits, base=8)])
+                octal_digits = ''
+                within_backslash = False
+            continue
+        if octal_bytes and (c != '\\' or within_backslash):
+            current_word += octal_bytes.decode('utf-8', errors='replace')
+            octal_bytes = b''
         match c:
             case '.':
                 if within_backslash:
@@ -73,8 +85,12 @@ def parse_category_path(category_path: str) -> List[str]:
                     within_backslash = False
                 else:
                     within_escaped = not within_escaped
+            case 'n' | 'r' | 't' if within_backslash:
+                current_word += {'n': '\n', 'r': '\r', 't': '\t'}[c]
+                within_backslash = False
             case _:
                 current_word += c
+                within_backslash = False
     if len(current_word) >= 1:
         path_list.append(current_word)
     return path_list
@@ -93,7 +109,8 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            # NOTE: category names can contain quotes, so don't embed them into an XPath expression
+            subelem = next((e for e in elemcats.findall("./category") if e.findtext("./name") == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From 1109aca6bf2ef892e61842d33d79d7b62a88c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:18 +0000
Subject: [PATCH 23/36] fix: removing whiteboxed devices no longer invalidates
 the iterator (crash)

---
 klayout_pex/klayout/netlist_expander.py | 3 ++-
 klayout_pex/rcx25/netlist_expander.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index f9ecb30..2c2166e 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,8 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            # NOTE: iterate over a copy, removing devices invalidates the iterator
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 3198a93..b888cdf 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From 7b767b06cc8d6d25329f355126253c9d5196511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:26 +0000
Subject: [PATCH 24/36] fix: read the cached LVS database on a cache hit

---
 klayout_pex/kpex_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..8b70a14 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -806,6 +806,7 @@ class KpexCLI:
                                                 f"{args.effective_cell_name}.lvsdb.gz")
 
                 lvs_needed = True
+                effective_lvsdb_path = lvsdb_path
 
                 if args.cache_lvs:
                     if not os.path.exists(lvsdb_cache_path):
@@ -818,6 +819,7 @@ class KpexCLI:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
                         lvs_needed = False
+                        effective_lvsdb_path = lvsdb_cache_path
 
                 if lvs_needed:
                     lvs_runner = LVSRunner()
@@ -834,7 +836,7 @@ class KpexCLI:
                             os.makedirs(cache_dir_path, exist_ok=True)
                         shutil.copy(lvsdb_path, lvsdb_cache_path)
 
-                lvsdb.read(lvsdb_path)
+                lvsdb.read(effective_lvsdb_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From 2bc9eaacda8bc19dd3a8536d12026a0c28453061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:26 +0000
Subject: [PATCH 25/36] fix: do not take the LVS database of an earlier run for
 the result of a failed one

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 8b70a14..7b5304b 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -822,6 +822,10 @@ class KpexCLI:
                         effective_lvsdb_path = lvsdb_cache_path
 
                 if lvs_needed:
+                    # NOTE: if LVS fails, results of a previous run must not be mistaken for current ones
+                    if os.path.exists(lvsdb_path):
+                        os.remove(lvsdb_path)
+
                     lvs_runner = LVSRunner()
                     lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                lvs_script=args.lvs_script_path,
-- 
2.43.0


From 05b117407d1c50a5f9bec82ca848ddac8c6404a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:26 +0000
Subject: [PATCH 26/36] fix: invalid --diel pattern is reported instead of
 failing in the logger

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 7b5304b..d01c1d2 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -463,7 +463,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From 679ea7eecf4797fcf6e749ac5b18d7bad478c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:26 +0000
Subject: [PATCH 27/36] fix: unknown cell is reported instead of failing with
 an AttributeError

---
 klayout_pex/kpex_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index d01c1d2..5c31513 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -397,7 +397,8 @@ class KpexCLI:
                              f"but it is not the only top cell, "
                              f"so layout is exported to: {args.effective_gds_path}")
 
-                        found_cell.write(args.effective_gds_path)
+                        if found_cell:
+                            found_cell.write(args.effective_gds_path)
                 else:  # find top cell
                     if len(top_cells) == 1:
                         args.effective_cell_name = top_cells[0].name
-- 
2.43.0


From ce013335456ffb78b80a01006603c8f8c242b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 28/36] fix: field solver model of a single net or material was
 emptied by its own overlap check

---
 klayout_pex/fastercap/fastercap_model_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..473a973 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,7 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From e09c5fbed7ff528a0f20eaa1977192bdfadea24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 29/36] fix: field solver model got extra panels where three
 overlapping dielectrics end or start

---
 klayout_pex/fastercap/fastercap_model_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 473a973..f18447d 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -434,6 +434,10 @@ class FasterCapModelGenerator:
                 lin += current_before & all_out
                 lin -= lout_org
                 lout -= lin_org
+                # nothing changes where this one was and stays hidden
+                unchanged = lin & lout
+                lin -= unchanged
+                lout -= unchanged
 
                 # tracks the legalized horizontal cuts
                 self.state[mk] += lin
-- 
2.43.0


From 0cf5e97d01a44fe7cafe9338fb66925af5f31a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:50 +0000
Subject: [PATCH 30/36] fix: unknown layers of a PDK mapping were reported as
 single characters

---
 convert_layout_pdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convert_layout_pdk.py b/convert_layout_pdk.py
index d111b26..93af745 100755
--- a/convert_layout_pdk.py
+++ b/convert_layout_pdk.py
@@ -117,13 +117,13 @@ class LayerMapping:
         for src_lpp, dest_lpps in self.lpp_mapping.items():
             src_layer = self.src_layers.layer_by_lpp.get(src_lpp, None)
             if not src_layer:
-                errors += f"Unknown source layer {src_lpp}"
+                errors.append(f"Unknown source layer {src_lpp}")
                 continue
             dest_layers: List[Layer] = []
             for dest_lpp in dest_lpps:
                 lyr = self.dest_layers.layer_by_lpp.get(dest_lpp, None)
                 if not lyr:
-                    errors += f"Unknown source layer {dest_lpp}"
+                    errors.append(f"Unknown destination layer {dest_lpp}")
                     continue
                 dest_layers.append(lyr)
             d[src_layer] = LayerList(dest_layers)
-- 
2.43.0


From 61f1da56ecb62c60543267d95955dfd4cc94e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:22 +0000
Subject: [PATCH 31/36] fix: the netlist tool ignored the requested cell

---
 klayout_pex/netlist/netlist_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..9523f7b 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -154,6 +154,11 @@ class NetlistCLI:
         top_circuit: kdb.Circuit
 
         match n_circuits:
+            case _ if args.cell_name is not None:
+                top_circuit = netlist.circuit_by_name(args.cell_name)
+                if top_circuit is None:
+                    error(f"Could not find cell {args.cell_name} in SPICE netlist {args.input_netlist_path}")
+                    sys.exit(1)
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
                 sys.exit(1)
-- 
2.43.0


From e7479751c53b58c6ed9f7baf12e54c813fdc10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:32 +0000
Subject: [PATCH 32/36] fix: the netlist tool rejected every log level

---
 klayout_pex/netlist/netlist_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 9523f7b..aed5efe 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -82,7 +82,7 @@ class NetlistCLI:
         group_special.add_argument("--help", "-h", action='help', help="show this help message and exit")
         group_special.add_argument("--version", "-v", action='version', version=f'{PROGRAM_NAME} {__version__}')
         group_special.add_argument("--log_level", dest='log_level',
-                                   default=LogLevel.DEFAULT, type=LogLevel, choices=list(LogLevel),
+                                   default='subprocess',
                                    help=render_enum_help(topic='log_level', enum_cls=LogLevel))
 
         subparsers = main_parser.add_subparsers(dest="command", help="Sub-commands help")
@@ -119,6 +119,13 @@ class NetlistCLI:
         print("")
         found_errors = False
 
+        try:
+            args.log_level = LogLevel[args.log_level.upper()]
+        except KeyError:
+            error(f"Requested log level {args.log_level.lower()} does not exist, "
+                  f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+            found_errors = True
+
         match args.command:
             case None:
                 error(f"Command argument missing")
-- 
2.43.0


From 6c4c440b3f49fe1f95225c0df7923da050171ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:33 +0000
Subject: [PATCH 33/36] fix: log level ALL hid every message below WARNING

---
 klayout_pex/log/logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..3a570af 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -75,11 +75,12 @@ __logger = logging.getLogger("__kpex__")
 
 
 def set_log_level(log_level: LogLevel):
-    __logger.setLevel(log_level)
+    # NOTE: level 0 would make the logger use the level of the root logger
+    __logger.setLevel(1 if log_level == LogLevel.ALL else log_level)
 
 
 def get_log_level() -> LogLevel:
-    return LogLevel(__logger.level)
+    return LogLevel.ALL if __logger.level == 1 else LogLevel(__logger.level)
 
 
 def register_additional_handler(handler: logging.Handler):
-- 
2.43.0


From 745f9af4fe789b71b6f74ece458ff2e0a295c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:27 +0000
Subject: [PATCH 34/36] fix: bracketed parts of log messages were lost or
 raised MarkupError

---
 klayout_pex/log/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index 3a570af..136f8d0 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -27,6 +27,7 @@ from functools import cached_property
 import logging
 import rich.console
 import rich.logging
+import rich.markup
 from typing import *
 
 
@@ -49,7 +50,7 @@ class LogLevel(IntEnum):
 
 class LogLevelFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
+        msg = rich.markup.escape(record.getMessage())  # NOTE: brackets in messages are not markup
         match record.levelno:
             case LogLevel.WARNING.value: return f"[yellow]{msg}"
             case LogLevel.ERROR.value: return f"[red]{msg}"
-- 
2.43.0


From 19399511de1b27919596eae3cdc05315a07cd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 35/36] fix: the PDK conversion crashed on documented and
 unknown log levels

---
 convert_layout_pdk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convert_layout_pdk.py b/convert_layout_pdk.py
index 93af745..552ac04 100755
--- a/convert_layout_pdk.py
+++ b/convert_layout_pdk.py
@@ -297,7 +297,6 @@ def invert_dict(d: Dict[str, Tuple[str]]) -> Dict[str, Tuple[str]]:
 
 def main():
     args = parse_args()
-    setup_logging(args)
 
     info("Called with arguments:")
     info(' '.join(map(shlex.quote, sys.argv)))
@@ -315,6 +314,8 @@ def main():
     except Exception:
         sys.exit(1)
 
+    setup_logging(args)
+
     tech_layer_lists = [parse_layers(lyp_path) for lyp_path in lyp_paths]
     if args.dump_layers_and_quit:
         info("Dumping all available layers…")
-- 
2.43.0


From 322071fd13cee7580e9b61bae9ad5184d1a397c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:03 +0000
Subject: [PATCH 36/36] fix: devices with terminals on layers outside the
 extraction crashed

KLayoutExtractionContext.devices_by_name raised a KeyError when a device
terminal lies on a layer that is not extracted, such as the layers of
blackboxed devices or layers not listed in the tech info.
---
 klayout_pex/klayout/lvsdb_extractor.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 821be7e..f5751d7 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -401,12 +401,24 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        # NOTE: terminals can lie on layers that are not extracted
+                        #       (layers of blackboxed devices, layers not listed in the tech info)
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:
+                            debug(f"Ignoring shapes of terminal {td.name} of device {d.device_name}, "
+                                  f"LVS layer {self.lvsdb.layer_name(idx)} is not extracted")
+                            continue
+
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
+                        canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair.get((lyr_info.layer, lyr_info.datatype), None)
+                        if canonical_layer_name is None:
+                            debug(f"Ignoring shapes of terminal {td.name} of device {d.device_name}, "
+                                  f"layer {lyr_info} is not listed in the tech info")
+                            continue
 
                         region_by_layer = terminal.region_by_layer.add()
                         region_by_layer.layer.id = lyr_idx
-                        region_by_layer.layer.canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair[lyr_info.layer, lyr_info.datatype]
+                        region_by_layer.layer.canonical_layer_name = canonical_layer_name
 
                         shapes_converter.klayout_region_to_pb(shapes, region_by_layer.region)
 
-- 
2.43.0

