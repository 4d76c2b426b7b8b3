From 8763f1b46a9212a83615bb1e1fbba1af5a502607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 01/39] fix: save_gcode writes the program instead of the
 object's repr

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..7598291 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -283,7 +283,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From 90b6696c97f1bb6d07441c959ba3ad8e25b96b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 02/39] fix: safety block honours the job's unit, work offset
 and motion mode

---
 src/cq_cam/command.py | 17 ++++++++++++++---
 src/cq_cam/fluent.py  |  5 +++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..af8bef2 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,17 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +433,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +447,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 7598291..f1db1f0 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -272,12 +272,13 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From 8045582fa446f2ca9c64c3027aae04db5c8956a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 03/39] fix: update_tool does not modify the job it is called
 on

---
 src/cq_cam/fluent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index f1db1f0..01665d5 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -134,6 +134,10 @@ class Job:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
 
+            else:
+                # Never modify the job the tool is being updated on
+                self = copy(self)
+
             # Update Job attributes
             self.tool_number = tool_number
             self.tool_diameter = tool_diameter
-- 
2.43.0


From 4e35a0007b627118346ae1b2ab372c5aff7ba2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 04/39] fix: program starts the spindle at the job's initial
 speed

---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 01665d5..fe792e0 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -75,6 +75,8 @@ class Job:
         self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
         self.feed = feed
         self.speed = speed
+        # Later speed changes are issued by the operations themselves
+        self.start_speed = speed
         self.tool_diameter = tool_diameter
         self.tool_number = tool_number
         self.name = name
@@ -280,7 +282,7 @@ class Job:
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{safety_block}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From 9509a99f65e781a67cdf2b0fc8a49d9416a450d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 05/39] fix: drill plunges with the plunge feed

---
 src/cq_cam/operations/drill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..083d670 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -78,7 +78,9 @@ class Drill(Operation):
             previous_pos = ops[-1].end
             ops.append(Rapid.abs(z=0, start=previous_pos))
             previous_pos = ops[-1].end
-            ops.append(PlungeCut.abs(z=depth, feed=self.job.feed, start=previous_pos))
+            ops.append(
+                PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=previous_pos)
+            )
             previous_pos = ops[-1].end
             cut_sequences.append(ops)
         cut_sequences = flatten_list(cut_sequences)
-- 
2.43.0


From 01835a69780bbfc403292e56d762d50c758fcd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 06/39] fix: drill emits hole positions relative to the job
 plane

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index 083d670..59425c4 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From 407cba9c8c753ef54ad9cb88b5fb81d87c1e6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 07/39] fix: an unlinked pocket contour does not end with a cut
 to the previous contour's nearest point

---
 src/cq_cam/routers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..4582241 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -361,6 +361,7 @@ def route_polyface_outers(
             )
         else:
             # Create simple transition between toolpaths
+            closest_point = None
             commands += rapid_to(
                 previous_pos,
                 start,
-- 
2.43.0


From c797519ce5bdf7bbb1d40289095cc22ff33a6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 08/39] fix: compare the stepover with the distance, not the
 squared distance, when linking pocket contours

---
 src/cq_cam/routers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 4582241..317bb77 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -349,7 +349,8 @@ def route_polyface_outers(
             distance, closest_point, poly_position = None, None, None
 
         # Same comment applies here as in the same section in route_wires
-        if stepover and distance and distance <= stepover:
+        # Distance is squared, and the contours are rounded to the job precision
+        if stepover and distance and distance <= (stepover + 10**-job.precision) ** 2:
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
-- 
2.43.0


From 14d4c5926e650dc9ee7666435a717c7a53051720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 09/39] fix: an unlinked wire is routed from its own start

---
 src/cq_cam/routers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 317bb77..85abdb6 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -270,7 +270,7 @@ def route_wires(
             # Determine the index of the edge, shift edges and use param?
             edges = shift_edges(edges, target)
             start = edge_start_point(edges[0])
-            if param:
+            if param is not None:
                 start = edges[0].positionAt(param, "parameter")
             commands.append(
                 Cut(AddressVector.from_vector(start), previous_pos, feed=job.feed)
@@ -279,6 +279,7 @@ def route_wires(
             # Create simple transition between toolpaths
             # TODO Implement Ramping (Horizontal/Vertical)
             # TODO Implement orientation (Climb/Conventional)
+            param = None
             commands += rapid_to(
                 previous_pos,
                 start,
@@ -306,7 +307,7 @@ def route_wires(
                 new_commands, end = route_edge(edge, job.precision, feed=job.feed)
                 previous_pos = new_commands[-1].end
                 commands += new_commands
-        if param:
+        if param is not None:
             new_commands, end = route_edge(
                 edges[0], job.precision, end_p=param, feed=job.feed
             )
-- 
2.43.0


From 33e633d5684ae5286b9f98125c00cc2d6d40f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 10/39] fix: wire tabs are applied in the order they occur on
 the edge

---
 src/cq_cam/operations/tabs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..f454d11 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -134,6 +134,9 @@ class WireTabs(Tabs):
                 edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.NORMAL))
 
+        # Tabs are not necessarily listed in the order they are met on the edge
+        transitions.sort(key=lambda transition: transition[0])
+
         # Add helper transitions for later processing
         if not transitions or transitions[0][0] != 0:
             transitions.insert(0, (0, Transition.NORMAL))
-- 
2.43.0


From 94b2d03042659d11b20625e60760bda616f68907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 11/39] fix: edge tabs do not overlap

---
 src/cq_cam/operations/tabs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index f454d11..90fd462 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -59,6 +59,10 @@ class EdgeTabs(Tabs):
             if count <= 0:
                 continue
 
+            # Tabs must not overlap
+            while count > 1 and length / (count + 1) <= self.width:
+                count -= 1
+
             half_d = 1 / length * half
             for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
                 edge_ds.append((d - half_d, d + half_d))
-- 
2.43.0


From 9f81bbe593f5edf2757795bc6304938fe24f0ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 12/39] fix: profile stepdown layers are compared with the job
 plane in job coordinates

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index fe792e0..2ce5193 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -72,7 +72,7 @@ class Job:
         coolant: CoolantState | None = None,
     ):
         self.top = top
-        self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
+        self.top_plane_face = cq.Face.makePlane(None, None, (0, 0, 0), (0, 0, 1))
         self.feed = feed
         self.speed = speed
         # Later speed changes are issued by the operations themselves
-- 
2.43.0


From f65ee9acde4a28d55d66685d9db1578ca38d2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 13/39] fix: visualise arcs

---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index af8bef2..f795779 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector())
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From c4e87a3424d9a08e6bba5ffc56d685c5c72f1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 14/39] fix: distance to a zero length segment

---
 src/cq_cam/utils/geometry_op.py | 2 +-
 src/cq_cam/utils/utils.py       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..4154cf5 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -277,7 +277,7 @@ def distance_to_path(
 
             # the lengths are squared, so to get the correct ratio
             # sqrt needs to be applied
-            poly_param = sqrt(point_length / segment_length)
+            poly_param = sqrt(point_length / segment_length) if segment_length else 0.0
             poly_position = (i, poly_param)
 
     return distance, closest_point, poly_position
diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..b998b2f 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -289,6 +289,8 @@ def dist_to_segment_squared(
     p, v, w = point, segment_start, segment_end
     """https://stackoverflow.com/a/1501725"""
     l2 = dist2(v, w)
+    if l2 == 0:
+        return dist2(p, v), v
     t = ((p[0] - v[0]) * (w[0] - v[0]) + (p[1] - v[1]) * (w[1] - v[1])) / l2
     t = max(0.0, min(1.0, t))
     closest_point = (v[0] + t * (w[0] - v[0]), v[1] + t * (w[1] - v[1]))
-- 
2.43.0


From 6f65e9ccfee02c7622beb1aa2dc5a91bae0f3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 15/39] fix: do not rapid below a target that is above the safe
 plunge height

---
 src/cq_cam/routers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 85abdb6..7f54e7f 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -81,7 +81,12 @@ def rapid_to(
             PlungeCut.abs(z=end.z, start=start, arrow=True, feed=plunge_feed)
         )
     else:
-        commands.append(PlungeRapid.abs(z=safe_plunge_height, start=start, arrow=True))
+        # Never go below the target with a rapid
+        commands.append(
+            PlungeRapid.abs(
+                z=max(safe_plunge_height, end.z), start=start, arrow=True
+            )
+        )
         start = commands[-1].end
         if safe_plunge_height > end.z:
             commands.append(
-- 
2.43.0


From 98225efbd9a44dcf885969bd1e229fdebf6f1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 16/39] fix: profile accepts a tool diameter given by the
 operation's tool

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 2ce5193..c948d3a 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -160,14 +160,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From db0f8b63e88a3f4dd26cc3d18173fcf4dcc8937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 17/39] fix: zigzag does not revisit the start of a new cut
 sequence

---
 src/cq_cam/operations/strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index f6c9a54..a680d16 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -180,6 +180,7 @@ class ZigZagStrategy(Strategy):
                 cut_sequences.append(cut_sequence)
                 # TODO some optimization potential in picking the nearest scanpoint
                 start_position, cut_position = scanlines.pop(0)
+                scanpoint_to_linked_polygon[start_position].drop(start_position)
                 # TODO some optimization potential in picking a direction
                 cut_sequence = [start_position, cut_position]
                 continue
-- 
2.43.0


From 7b76563d037bb68b1d480fd7e6f33d7d578691ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 18/39] fix: route only the requested part of a spline edge

---
 src/cq_cam/routers.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 7f54e7f..11066e6 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -221,9 +221,22 @@ def route_edge(
         else:
             i, j = 0, 1
 
-        for length in np.linspace(i, j, n):
+        if start_p is None and end_p is None:
+            positions = [edge.positionAt(length) for length in np.linspace(i, j, n)]
+        else:
+            # Only a part of the edge is routed
+            positions = [
+                edge.positionAt(param, "parameter")
+                for param in np.linspace(
+                    edge_start_param(edge) if start_p is None else start_p,
+                    edge_end_param(edge) if end_p is None else end_p,
+                    n,
+                )
+            ]
+
+        for position in positions:
             # [e._geomAdaptor().Curve().Curve().BasisCurve().BasisCurve() for e in pocket.DEBUG[0].Edges()]
-            end_cv_int = AddressVector.from_vector(edge.positionAt(length))
+            end_cv_int = AddressVector.from_vector(position)
             commands.append(
                 Cut(
                     end_cv_int,
-- 
2.43.0


From d4d1c39f234eee9925297260e50f56d4ea1a00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 19/39] fix: zigzag scanlines may end on the closing segment of
 the boundary

---
 src/cq_cam/operations/strategy.py  | 3 ++-
 src/cq_cam/utils/linked_polygon.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index a680d16..c54f5bd 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -135,7 +135,8 @@ class ZigZagStrategy(Strategy):
         for polygon in boundaries:
             linked_polygon = LinkedPolygon(polygon[:])
             linked_polygons.append(linked_polygon)
-            for p1, p2 in pairwise(polygon):
+            # The polygon does not necessarily repeat its first point
+            for p1, p2 in pairwise([*polygon, polygon[0]]):
                 for scanpoint in remaining_scanpoints[:]:
                     d, _ = dist_to_segment_squared(scanpoint, p1, p2)
                     # Todo pick a good number. Tests show values between 1.83e-19 and 1.38e-21
diff --git a/src/cq_cam/utils/linked_polygon.py b/src/cq_cam/utils/linked_polygon.py
index 42f2642..817a9d5 100644
--- a/src/cq_cam/utils/linked_polygon.py
+++ b/src/cq_cam/utils/linked_polygon.py
@@ -20,6 +20,9 @@ class LinkedPolygon:
         i = self.polygon.index(segment_start)
         i_1 = i + 1
         j = self.polygon.index(segment_end)
+        if j <= i:
+            # The segment closes the polygon
+            j = len(self.polygon)
 
         if i_1 == j:
             self.polygon.insert(i_1, point)
-- 
2.43.0


From e840cf663a71e716c757a84653ef0995bff7ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 20/39] fix: 3D surface accepts a stepdown larger than the
 total depth

---
 src/cq_cam/operations/op3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..6616821 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -118,7 +118,7 @@ class Surface3D(FaceBaseOperation):
                         self.top_height + self.stepdown, bottom_height, self.stepdown
                     )
                 )
-                if depths[-1] != bottom_height:
+                if not depths or depths[-1] != bottom_height:
                     depths.append(bottom_height)
             else:
                 depths = [bottom_height]
-- 
2.43.0


From 441c3c99f78b08085df8c768292c087eb243f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 21/39] fix: 3D surface cuts carry the feed of the job

---
 src/cq_cam/operations/op3d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 6616821..bfad0ea 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -157,6 +157,7 @@ class Surface3D(FaceBaseOperation):
                                 y=cut[1],
                                 z=max(depth, cut[2]),
                                 start=previous_pos,
+                                feed=self.job.feed,
                             )
                         )
                         previous_pos = self.commands[-1].end
-- 
2.43.0


From 7d6682cf0add5a791b5d656796cc4450efc04c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 22/39] fix: 3D surface cuts the first point of every cut
 sequence

---
 src/cq_cam/operations/op3d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index bfad0ea..f3aed8e 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -147,9 +147,14 @@ class Surface3D(FaceBaseOperation):
                         Rapid.abs(z=self.job.op_safe_height, start=previous_pos)
                     )  # TODO plunge or rapid?
                     previous_pos = self.commands[-1].end
-                    # self.commands.append(PlungeCut.abs(
-                    #     z=cut_start[2], start=previous_pos))
-                    # previous_pos = self.commands[-1].end
+                    self.commands.append(
+                        PlungeCut.abs(
+                            z=max(depth, cut_start[2]),
+                            start=previous_pos,
+                            feed=self.job.plunge_feed,
+                        )
+                    )
+                    previous_pos = self.commands[-1].end
                     for cut in cut_sequence[1:]:
                         self.commands.append(
                             Cut.abs(
-- 
2.43.0


From 5027c99e7df8ead39cf3cf29503f1b23ffd44b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 23/39] fix: an open wire is never entered midway when linking
 wires

---
 src/cq_cam/routers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 11066e6..e2f4e68 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -284,7 +284,8 @@ def route_wires(
         else:
             distance, target, param = None, None, None
 
-        if stepover and distance and distance <= stepover:
+        # An open wire can not be entered midway
+        if stepover and distance and distance <= stepover and start == end:
             # Determine the index of the edge, shift edges and use param?
             edges = shift_edges(edges, target)
             start = edge_start_point(edges[0])
-- 
2.43.0


From 679382e55114b3e244a7f8c38d11d3e13f08df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 24/39] fix: vertical edges that go down, as after a tab, are
 cut with the plunge feed

---
 src/cq_cam/routers.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index e2f4e68..493e05d 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -101,6 +101,15 @@ def vertical_edge(edge: cq.Edge):
     return p1.x == p2.x and p1.y == p2.y
 
 
+def edge_feed(job: "Job", edge: cq.Edge):
+    start, end = edge_start_point(edge), edge_end_point(edge)
+    vertical = abs(start.x - end.x) < 1e-6 and abs(start.y - end.y) < 1e-6
+    # A vertical descent enters the material, for example after a tab
+    if edge.geomType() == "LINE" and vertical and end.z < start.z:
+        return job.plunge_feed
+    return job.feed
+
+
 def distance_to_wire(v: cq.Vector, wire2: cq.Wire):
     vx = cq.Vertex.makeVertex(*v.toTuple())
     extrema = BRepExtrema_DistShapeShape(vx.wrapped, wire2.wrapped)
@@ -312,23 +321,29 @@ def route_wires(
             if edge_i == 0:
                 if param is not None:
                     new_commands, end = route_edge(
-                        edge, job.precision, start_p=param, arrow=True, feed=job.feed
+                        edge,
+                        job.precision,
+                        start_p=param,
+                        arrow=True,
+                        feed=edge_feed(job, edge),
                     )
                     previous_pos = new_commands[-1].end
                     commands += new_commands
                 else:
                     new_commands, end = route_edge(
-                        edge, job.precision, arrow=True, feed=job.feed
+                        edge, job.precision, arrow=True, feed=edge_feed(job, edge)
                     )
                     previous_pos = new_commands[-1].end
                     commands += new_commands
             else:
-                new_commands, end = route_edge(edge, job.precision, feed=job.feed)
+                new_commands, end = route_edge(
+                    edge, job.precision, feed=edge_feed(job, edge)
+                )
                 previous_pos = new_commands[-1].end
                 commands += new_commands
         if param is not None:
             new_commands, end = route_edge(
-                edges[0], job.precision, end_p=param, feed=job.feed
+                edges[0], job.precision, end_p=param, feed=edge_feed(job, edges[0])
             )
             previous_pos = new_commands[-1].end
             commands += new_commands
-- 
2.43.0


From c4bafa7cd708217cf79b7a251f223ce6d313bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 25/39] fix: offset circles stay in place, the workaround needs
 the source wire

---
 src/cq_cam/utils/geometry_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 4154cf5..d870cca 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for offsetted_wire in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(offsetted_wire)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(offsetted_wire)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From 1bc9f07168d42d1960cfecf7caf4a9b9f32e595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 26/39] fix: full circles are cut also when the shape does not
 flag them as closed

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 493e05d..1628d0b 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -176,7 +176,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From 7bfe308425aff62dd195a7db4be99463c6dc0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 27/39] fix: the circle workaround uses the whole location of
 the circle

---
 src/cq_cam/utils/circle_bug_workaround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..4173d8e 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -15,4 +15,4 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
         if edge.startPoint() == edge.endPoint():
             # OCCT bug with offsetting circles!
             for target in target_wires:
-                target.wrapped.Location(source_wire.wrapped.Location().Inverted())
+                target.wrapped.Location(edge.wrapped.Location().Inverted())
-- 
2.43.0


From 187b632d17474ab054e024a9a12bc139effd79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 28/39] fix: offset paths keep the shape of densely
 interpolated curves

---
 src/cq_cam/utils/geometry_op.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index d870cca..5c291be 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -125,16 +125,23 @@ def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     pco = pc.PyclipperOffset(pc.scale_to_clipper(2.0), scaled_precision)
     pco.AddPath(scaled_path, pc.JT_ROUND, pc.ET_CLOSEDPOLYGON)
 
+    # Cleaning with a distance close to the vertex spacing would cut the corners
+    # of densely interpolated curves, so the points are reduced separately
     offset_paths = [
-        close_path(pc.scale_from_clipper(offsetted_path))
-        for offsetted_path in pc.CleanPolygons(
-            pco.Execute(scaled_offset), scaled_precision
+        simplify_path(
+            close_path(pc.scale_from_clipper(offsetted_path)), 10**-precision / 2
         )
+        for offsetted_path in pc.CleanPolygons(pco.Execute(scaled_offset))
         if offsetted_path
     ]
     return offset_paths
 
 
+def simplify_path(path: ClosedPath, tolerance: float) -> ClosedPath:
+    ring = shapely.LinearRing(path).simplify(tolerance)
+    return [list(point) for point in ring.coords]
+
+
 def wire_to_path(wire: cq.Wire, precision: int) -> Path:
     return vectors_to_2d_tuples(wire_to_vectors(wire, precision))
 
-- 
2.43.0


From 1d14874db603be492f5676e570119911d01b4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 29/39] fix: tabs are made on the placed edge

---
 src/cq_cam/operations/profile.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..2dd5601 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -119,7 +119,9 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
-            curve = edge._geomAdaptor().Curve().Curve()
+            adaptor = edge._geomAdaptor()
+            # The location of the edge doesn't affect the underlying curve..
+            curve = adaptor.Curve().Curve().Transformed(adaptor.Trsf())
 
             if t_start[1] == Transition.TAB:
                 projected_curve = GeomProjLib.ProjectOnPlane_s(
@@ -155,9 +157,6 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
                 # Plunge
                 if previous_edge:
                     plunge = cq.Edge.makeLine(
-- 
2.43.0


From d6f6a95b2cd31456ef55a87c3c6cdbe404ceac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 30/39] fix: a level at the tab height gets no tabs

---
 src/cq_cam/operations/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 2dd5601..585e35c 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -95,7 +95,8 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     if tabs is None:
         return wire
 
-    if wire.BoundingBox().zmin >= tab_z:
+    # Nothing is left to retract if the wire is at the tab height
+    if wire.BoundingBox().zmin >= tab_z - 1e-6:
         return wire
 
     tab_plane = cq.Plane((0, 0, tab_z))
-- 
2.43.0


From 7c66ee0b8a9629a54d09482e6688deaeb8df45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 31/39] fix: the circle workaround is not applied to other
 closed edges

---
 src/cq_cam/utils/circle_bug_workaround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 4173d8e..32f30b5 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -12,7 +12,7 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
     """
     if len(source_wire.Edges()) == 1:
         edge = source_wire.Edges()[0]
-        if edge.startPoint() == edge.endPoint():
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
             # OCCT bug with offsetting circles!
             for target in target_wires:
                 target.wrapped.Location(edge.wrapped.Location().Inverted())
-- 
2.43.0


From 24f7046adc17f5affa863116c473c98d42d95953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 32/39] fix: circles are offset to the intended side whatever
 their orientation

---
 src/cq_cam/utils/geometry_op.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 5c291be..edb3936 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -68,9 +68,23 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
         return tool_radius * offset
 
 
+def orient_circle(wire: cq.Wire) -> cq.Wire:
+    """
+    OCCT decides the offset side of a circle from its orientation. Return the wire
+    in the orientation where a positive offset is outwards.
+    """
+    edges = wire.Edges()
+    if len(edges) == 1 and edges[0].geomType() == "CIRCLE" and edges[0].IsClosed():
+        outwards = wire.offset2D(edges[0].radius() / 2)
+        if any(outward.Length() < wire.Length() for outward in outwards):
+            return cq.Wire(wire.wrapped.Reversed())
+    return wire
+
+
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    wire = orient_circle(wire)
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
-- 
2.43.0


From bd004500af9b07db54cbbc964fe93b337fecd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 33/39] fix: faces at the same depth compare equal

---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index edb3936..11c79b5 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -45,7 +45,8 @@ class PathFace:
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # The bounding box is not exact, faces at the same depth must compare equal
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From 7977ea2a8c96bbd25c9e5824b8c5a85458d4928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 34/39] fix: overlapping areas add up instead of cancelling
 each other

The polygon operations used the even-odd rule, so the overlap of an inner and
an avoided area (or of two avoided areas) was cut.
---
 src/cq_cam/utils/geometry_op.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 11c79b5..6aea5c8 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -232,6 +232,10 @@ def offset_polyface(
         return [PathFace(outer, inners=[], depth=polyface.depth) for outer in outers]
 
 
+def orient_paths(scaled_paths: list[Path]) -> list[Path]:
+    return [path if pc.Orientation(path) else path[::-1] for path in scaled_paths]
+
+
 def prepare_path_boolean_op(subjects: list[Path], clips: list[Path]) -> pc.Pyclipper:
     clipper = pc.Pyclipper()
     # noinspection PyArgumentList
@@ -239,10 +243,12 @@ def prepare_path_boolean_op(subjects: list[Path], clips: list[Path]) -> pc.Pycli
     # noinspection PyArgumentList
     scaled_clips = [pc.scale_to_clipper(clip) for clip in clips]
 
-    clipper.AddPaths(scaled_subjects, pc.PT_SUBJECT)
+    # The paths are executed with the nonzero fill rule, so that overlapping paths
+    # do not cancel each other out. It needs a common orientation.
+    clipper.AddPaths(orient_paths(scaled_subjects), pc.PT_SUBJECT)
 
     if scaled_clips:
-        clipper.AddPaths(scaled_clips, pc.PT_CLIP)
+        clipper.AddPaths(orient_paths(scaled_clips), pc.PT_CLIP)
 
     return clipper
 
@@ -251,7 +257,10 @@ def boolean_op_path_list(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> list[Path]:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = [pc.scale_from_clipper(result) for result in clipper.Execute(clip_type)]
+    results = [
+        pc.scale_from_clipper(result)
+        for result in clipper.Execute(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
+    ]
     return results
 
 
@@ -259,7 +268,7 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From f72d95f85dbc8cbca79f432069bcc83c1bbb9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 35/39] fix: reversed arcs are flattened in the direction of
 the wire

---
 src/cq_cam/utils/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b998b2f..f584c43 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -68,8 +68,10 @@ def drop_z(vector: cq.Vector) -> tuple[float, float]:
 
 
 def position_space(edge: cq.Edge, tolerance=0.1):
-    # TODO orientation check
-    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    n = max(math.ceil(edge.Length() / tolerance), 2)
+    if edge.wrapped.Orientation() == TopAbs_REVERSED:
+        return np.linspace(1, 0, n)
+    return np.linspace(0, 1, n)
 
 
 def flatten_edges(edges: list[cq.Edge]):
@@ -84,7 +86,6 @@ def flatten_edges(edges: list[cq.Edge]):
             # TODO tmp
         elif edge.geomType() in ["ARC", "CIRCLE", "OFFSET"]:
             # TODO handle full circles
-            # TODO make sure position_space ends up returning something (really tiny arcs?)
             positions = edge.positions(position_space(edge)[1:])
             vxs += positions
         else:
-- 
2.43.0


From 50ea4a7ff25c518d6116bf5ff86ce023dadbda34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 36/39] fix: areas enclosed by several faces are not cut

The union of the outers was reduced to its outlines, so a courtyard between
faces was cut as if it were a part of them. Faces inside holes are kept as well.
---
 src/cq_cam/operations/pocket.py | 10 +++-------
 src/cq_cam/utils/geometry_op.py |  5 +++--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..c09476f 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -10,7 +10,6 @@ from cq_cam.operations.pocket_cq import pocket_cq
 from cq_cam.routers import route_polyface_outers
 from cq_cam.utils.geometry_op import (
     OffsetInput,
-    Path,
     PathFace,
     calculate_offset,
     difference_poly_tree,
@@ -107,11 +106,6 @@ def combine_poly_faces(poly_faces: list[PathFace], depth) -> list[PathFace]:
     return difference_poly_tree(new_outers, inners, depth)
 
 
-def combine_outers(poly_faces: list[PathFace], depth) -> list[Path]:
-    outers = [poly_face.outer for poly_face in poly_faces]
-    return [poly_face.outer for poly_face in union_poly_tree(outers, [], depth)]
-
-
 def determine_stepdown_start_depth(
     pocket_op: PathFace, shallower_pocket_ops: list[PathFace]
 ) -> float | None:
@@ -162,7 +156,9 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
+        # The difference also combines overlapping outers. It keeps the areas that
+        # are enclosed by the outers, but are not part of any of them.
+        depth_ops = [face.outer for face in depth_faces]
         depth_inners = flatten_list(face.inners for face in depth_faces)
 
         if avoid_depths:
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 6aea5c8..9b45257 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -202,14 +202,15 @@ def close_path(path: OpenPath) -> ClosedPath:
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
     for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
             for child in face.Childs
         ]
         polyfaces.append(PathFace(outer, inners, depth))
+        # Faces inside the holes of this face
+        for child in face.Childs:
+            polyfaces += poly_tree_to_poly_faces(child, depth)
     return polyfaces
 
 
-- 
2.43.0


From 72e88a148bbbaf177770e8ebe7f1881e3578c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 37/39] fix: a tab that ends exactly on a vertex does not drop
 all the tabs

---
 src/cq_cam/operations/profile.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 585e35c..071b0f6 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -91,6 +91,17 @@ def profile(
 TAB_ERRORS = []
 
 
+def connect_edges(
+    new_edges: list[cq.Edge], previous_edge: cq.Edge | None, edge: cq.Edge
+):
+    # A tab may also begin or end exactly where an edge of the wire ends
+    if previous_edge is None:
+        return
+    start, end = edge_end_point(previous_edge), edge_start_point(edge)
+    if start != end:
+        new_edges.append(cq.Edge.makeLine(start, end))
+
+
 def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     if tabs is None:
         return wire
@@ -107,13 +118,15 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     tabs.load_ordered_edges(edges)
 
     new_edges = []
+    previous_edge = None
     for i, edge in enumerate(edges):
         transitions = tabs.edge_tab_transitions(i)
         if all(t[1] == Transition.NORMAL for t in transitions):
+            connect_edges(new_edges, previous_edge, edge)
+            previous_edge = edge
             new_edges.append(edge)
             continue
 
-        previous_edge = None
         for t_start, t_end in zip(transitions, transitions[1:]):
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
@@ -141,13 +154,8 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     projected_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                if previous_edge:
-                    # Retract
-                    # retract = cq.Edge.makeLine(edge_end_point(previous_edge), edge_start_point(projected_edge))
-                    retract = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(projected_edge)
-                    )
-                    new_edges.append(retract)
+                # Retract
+                connect_edges(new_edges, previous_edge, projected_edge)
 
                 previous_edge = projected_edge
                 new_edges.append(projected_edge)
@@ -159,11 +167,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
                 # Plunge
-                if previous_edge:
-                    plunge = cq.Edge.makeLine(
-                        edge_end_point(previous_edge), edge_start_point(sliced_edge)
-                    )
-                    new_edges.append(plunge)
+                connect_edges(new_edges, previous_edge, sliced_edge)
 
                 previous_edge = sliced_edge
                 new_edges.append(sliced_edge)
-- 
2.43.0


From 628a8912fd895162ab16a4dc1299a1509f227039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 38/39] fix: a tab that ends next to a vertex does not fail

---
 src/cq_cam/operations/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 071b0f6..ced9117 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -128,6 +128,10 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             continue
 
         for t_start, t_end in zip(transitions, transitions[1:]):
+            # Too short to make an edge of, the tab begins or ends on a vertex
+            if (t_end[0] - t_start[0]) * edge.Length() <= 1e-7:
+                continue
+
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
             )
-- 
2.43.0


From ee4df6d23e7798bf6dc20c091bb1729000186778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:24 +0000
Subject: [PATCH 39/39] fix: the contours of a deep fill do not exceed the
 recursion limit

Node.parents called itself once per contour around, so a fill of about a
thousand contours inside each other ended with a RecursionError.
---
 src/cq_cam/utils/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/tree.py b/src/cq_cam/utils/tree.py
index 0e0564a..41d1a3d 100644
--- a/src/cq_cam/utils/tree.py
+++ b/src/cq_cam/utils/tree.py
@@ -23,7 +23,12 @@ class Node:
 
     @property
     def parents(self):
-        return [self.parent] + self.parent.parents if self.parent else []
+        parents = []
+        node = self
+        while node.parent is not None:
+            node = node.parent
+            parents.append(node)
+        return parents
 
     @property
     def traverse(self):
-- 
2.43.0

