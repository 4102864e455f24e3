From 61f4750d934ed2c4e09b8f232f36652f9ee51c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 01/32] fix: save_gcode writes the program instead of the
 object's repr

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..7598291 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -283,7 +283,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From e83e92b3b427a9f5fdf409f2258eeb371bbc523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 02/32] fix: safety block honours the job's unit, work offset
 and motion control

---
 src/cq_cam/command.py | 21 ++++++++++++++++++---
 src/cq_cam/fluent.py  |  9 +++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..40dec76 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,21 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    unit: Unit
+    coordinate: WorkOffset
+    controller_motion: PlannerControlMode
+
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +437,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +451,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 7598291..899b1cc 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -272,12 +272,17 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        safety_block = SafetyBlock(
+            unit=self.unit,
+            coordinate=self.coordinate,
+            controller_motion=self.controller_motion,
+        )
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From 5b179dfe60fdc8f4a06b8e536203918d170ee103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 03/32] fix: update_tool no longer modifies the job it is
 called on

---
 src/cq_cam/fluent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 899b1cc..ece8acd 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -133,6 +133,8 @@ class Job:
             elif speed is not None and speed != self.speed:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
+            else:
+                self = copy(self)
 
             # Update Job attributes
             self.tool_number = tool_number
-- 
2.43.0


From f9f019910bfc7b5f3d8c5eb935b306830db1a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 04/32] fix: program starts the spindle with the speed the job
 was created with

---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index ece8acd..6810b4b 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -75,6 +75,8 @@ class Job:
         self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
         self.feed = feed
         self.speed = speed
+        # Tool and speed changes update speed, the program still starts with this
+        self.start_speed = speed
         self.tool_diameter = tool_diameter
         self.tool_number = tool_number
         self.name = name
@@ -282,7 +284,7 @@ class Job:
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{safety_block}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From 6c425b38e7afeee8928b97c2877976e4fcd7e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 05/32] fix: profile accepts a tool that provides the missing
 tool_diameter

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 6810b4b..fb58b19 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -158,14 +158,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From 5696aa16d703d02ba4f9b6116ae26012d23efe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 06/32] fix: drill converts points to the job's coordinates,
 not away from them

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..033e9c6 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From bf90d35a679cbd5e3636615fcdc7875a3d9331c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 07/32] fix: drill plunges with the plunge feed

---
 src/cq_cam/operations/drill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index 033e9c6..59425c4 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -78,7 +78,9 @@ class Drill(Operation):
             previous_pos = ops[-1].end
             ops.append(Rapid.abs(z=0, start=previous_pos))
             previous_pos = ops[-1].end
-            ops.append(PlungeCut.abs(z=depth, feed=self.job.feed, start=previous_pos))
+            ops.append(
+                PlungeCut.abs(z=depth, feed=self.job.plunge_feed, start=previous_pos)
+            )
             previous_pos = ops[-1].end
             cut_sequences.append(ops)
         cut_sequences = flatten_list(cut_sequences)
-- 
2.43.0


From 9e1d04565ea3b2359611bf827786fb81554b664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 08/32] fix: arcs are drawn as arcs

---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 40dec76..8ac2255 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector(0, 0, 0))
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From 9ff785309f8a44bd97d5c4a3b14f14efadb179bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 09/32] fix: wire tabs are processed in path order

---
 src/cq_cam/operations/tabs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..0655d75 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -99,7 +99,7 @@ class WireTabs(Tabs):
             if range[1] > 1:
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
-        self.wire_tab_ds = wire_tab_ds
+        self.wire_tab_ds = sorted(wire_tab_ds)
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
-- 
2.43.0


From 0fed9ec6828b9b71dd6fcd7de8b21be4a6db625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 10/32] fix: circle bug workaround gets the source wire

---
 src/cq_cam/utils/geometry_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..855a10e 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for candidate_wire in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(candidate_wire)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(candidate_wire)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From e8a16d982fc0cfc7ab08f4eb109991155bf4abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 11/32] fix: full circles are recognised by their geometry too

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..4163dd0 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.Closed() or edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From 8ee9e821eefcbe889b951326d18752d2a0e5ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 12/32] fix: stepdown of a profile intersects with the top
 plane in the wire's coordinates

---
 src/cq_cam/operations/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..1e42b9f 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -57,6 +57,7 @@ def profile(
         layers: list[cq.Wire] = [base_feature]
         if stepdown:
             step = cq.Vector(0, 0, 1) * stepdown
+            top_plane_face = job.top_plane_face.transformShape(job.top.fG)
 
             for i in itertools.count():
                 if i > job.max_stepdown_count:
@@ -68,7 +69,7 @@ def profile(
                 if bb.zmin >= -0.001:
                     break
 
-                edges = compound_to_edges(i_op.cut(job.top_plane_face))
+                edges = compound_to_edges(i_op.cut(top_plane_face))
                 edges = [edge for edge in edges if edge.Center().z < 0]
                 wires = cq.Wire.combine(edges)
 
-- 
2.43.0


From f4e32208f4dd6162634a7be88fad79b80e63e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 13/32] fix: a pass that is not linked to the previous one
 starts and ends at its own start

---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 4163dd0..c3a5476 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -279,6 +279,7 @@ def route_wires(
             # Create simple transition between toolpaths
             # TODO Implement Ramping (Horizontal/Vertical)
             # TODO Implement orientation (Climb/Conventional)
+            param = None
             commands += rapid_to(
                 previous_pos,
                 start,
@@ -361,6 +362,7 @@ def route_polyface_outers(
             )
         else:
             # Create simple transition between toolpaths
+            closest_point = None
             commands += rapid_to(
                 previous_pos,
                 start,
-- 
2.43.0


From 2637eb9caff8b1e399ee2a34149661ba55f293d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 14/32] fix: linking a pass at parameter 0 closes the pass

---
 src/cq_cam/routers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index c3a5476..2a677d3 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -270,7 +270,7 @@ def route_wires(
             # Determine the index of the edge, shift edges and use param?
             edges = shift_edges(edges, target)
             start = edge_start_point(edges[0])
-            if param:
+            if param is not None:
                 start = edges[0].positionAt(param, "parameter")
             commands.append(
                 Cut(AddressVector.from_vector(start), previous_pos, feed=job.feed)
@@ -307,7 +307,7 @@ def route_wires(
                 new_commands, end = route_edge(edge, job.precision, feed=job.feed)
                 previous_pos = new_commands[-1].end
                 commands += new_commands
-        if param:
+        if param is not None:
             new_commands, end = route_edge(
                 edges[0], job.precision, end_p=param, feed=job.feed
             )
-- 
2.43.0


From 42a6adba11f0e8e713e8c3015f4cf9041ec2d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 15/32] fix: a wire without edges doesn't discard the other
 wires' toolpaths

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 2a677d3..cbe87dd 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -254,7 +254,7 @@ def route_wires(
         else:
             edges = wire_to_ordered_edges(wire)
         if not edges:
-            return []
+            continue
         # Set start and end point of wire
         start = edge_start_point(edges[0])
         end = edge_end_point(edges[-1])
-- 
2.43.0


From 2dfbc4ca62df26610a6fa87c77969682d2c2544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 16/32] fix: cq pocket engine moves faces along the local z
 axis

---
 src/cq_cam/operations/pocket_cq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index a56ae8e..995a82f 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -65,7 +65,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             # Move faces UP
             depth_faces += [
-                face.translate(job.top.zDir.multiply(depth - sub_depth))
+                face.translate(cq.Vector(0, 0, depth - sub_depth))
                 for face in depth_map[sub_depth]
             ]
 
@@ -79,7 +79,7 @@ def build_pocket_ops(
             for avoid_depth in active_avoid_depths:
                 # Move faces DOWN
                 avoid_faces += [
-                    face.translate(job.top.zDir.multiply(depth - avoid_depth))
+                    face.translate(cq.Vector(0, 0, depth - avoid_depth))
                     for face in avoid_depth_map[avoid_depth]
                 ]
             depth_ops_with_avoid = []
-- 
2.43.0


From 3d29138d9b1c13f5d6336b0e1551620da5bf29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 17/32] fix: pocket rejects a stepover that never fills the
 pocket

---
 src/cq_cam/operations/pocket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..cf17043 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -51,6 +51,8 @@ def pocket(
     avoid_outer_offset = calculate_offset(job.tool_radius, avoid_outer_offset, 1)
     avoid_inner_offset = calculate_offset(job.tool_radius, avoid_inner_offset, -1)
     stepover = calculate_offset(job.tool_radius, stepover, 0.5)
+    if stepover <= 0:
+        raise ValueError("Pocket requires a positive stepover")
 
     # Transform to job plane
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
-- 
2.43.0


From 587257fbbe2f0a165a1741a3ad0aba26c9f646da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 18/32] fix: G38.2 is written with its letter

---
 src/cq_cam/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/groups.py b/src/cq_cam/groups.py
index beed873..f7ca93f 100644
--- a/src/cq_cam/groups.py
+++ b/src/cq_cam/groups.py
@@ -90,7 +90,7 @@ class Path(MotionControl):
 
 
 class ProbeMode(MotionControl):
-    ON_CONTACT_ERROR = "38.2"
+    ON_CONTACT_ERROR = "G38.2"
     ON_CONTACT = "G38.3"
     LOSE_CONTACT_ERROR = "G38.4"
     LOSE_CONTACT = "G38.5"
-- 
2.43.0


From 2765928b3a22edaa58e7900d13614fe51d812e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 19/32] fix: names can't break out of the G-code comments

---
 src/cq_cam/command.py |  7 +++++++
 src/cq_cam/fluent.py  | 14 +++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 8ac2255..87ce277 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -123,6 +123,13 @@ from cq_cam.groups import (
 from cq_cam.visualize import cached_occ_color
 
 
+def comment(text) -> str:
+    """Format text as a comment, which can't contain parentheses or line breaks"""
+    text = str(text).replace("(", "[").replace(")", "]")
+    text = text.replace("\r", " ").replace("\n", " ")
+    return f"({text})"
+
+
 class Command(ABC):
     pass
 
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index fb58b19..729aebe 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -6,7 +6,14 @@ from typing import Union
 
 from cadquery import cq
 
-from cq_cam.command import Command, SafetyBlock, StartSequence, StopSequence, ToolChange
+from cq_cam.command import (
+    Command,
+    SafetyBlock,
+    StartSequence,
+    StopSequence,
+    ToolChange,
+    comment,
+)
 from cq_cam.groups import (
     ArcDistanceMode,
     CoolantState,
@@ -37,7 +44,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -281,8 +288,9 @@ class Job:
             coordinate=self.coordinate,
             controller_motion=self.controller_motion,
         )
+        header = f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{comment(header)}\n"
             f"{safety_block}\n"
             f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From 4e926f44ddfb8ca02728f723389599f432174127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 20/32] fix: a plunge starts at the safe height only if it is
 above the target

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index cbe87dd..abaf253 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -76,7 +76,7 @@ def rapid_to(
         commands.append(Rapid.abs(x=end.x, y=end.y, start=start, arrow=True))
         start = commands[-1].end
 
-    if safe_plunge_height is None:
+    if safe_plunge_height is None or safe_plunge_height < end.z:
         commands.append(
             PlungeCut.abs(z=end.z, start=start, arrow=True, feed=plunge_feed)
         )
-- 
2.43.0


From c50cb5b8975bd5b9e0d38167ac07a2b5f0dadcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 21/32] fix: inner_boundary_offset may be None

---
 src/cq_cam/operations/base_operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/base_operation.py b/src/cq_cam/operations/base_operation.py
index b8a7c36..9fbe9db 100644
--- a/src/cq_cam/operations/base_operation.py
+++ b/src/cq_cam/operations/base_operation.py
@@ -181,7 +181,9 @@ class FaceBaseOperation(Operation, ABC):
             + self.outer_boundary_offset[1]
         )
         inner_offset = (
-            self._tool_diameter * self.inner_boundary_offset[0]
+            None
+            if self.inner_boundary_offset is None
+            else self._tool_diameter * self.inner_boundary_offset[0]
             + self.inner_boundary_offset[1]
         )
 
-- 
2.43.0


From 360bc1fa4e7bb9e4feb3bc8f4bd5f733ab980b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 22/32] fix: a part of a spline is cut from its start to its
 end

route_edge() ignored start_p and end_p for splines, so a path that was
linked within a spline left it at once for the start of the spline and
cut the whole spline twice.
---
 src/cq_cam/routers.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index abaf253..3764b91 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -210,15 +210,22 @@ def route_edge(
     elif geom_type == "BSPLINE" or geom_type == "SPLINE" or geom_type == "OFFSET":
         n = edge_interpolation_count(edge, precision)
 
-        orientation = edge.wrapped.Orientation()
-        if orientation == TopAbs_REVERSED:
-            i, j = 1, 0
+        if start_p is None and end_p is None:
+            orientation = edge.wrapped.Orientation()
+            if orientation == TopAbs_REVERSED:
+                i, j = 1, 0
+            else:
+                i, j = 0, 1
+            mode = "length"
         else:
-            i, j = 0, 1
+            # Only a part of the edge is cut
+            i = edge_start_param(edge) if start_p is None else start_p
+            j = edge_end_param(edge) if end_p is None else end_p
+            mode = "parameter"
 
-        for length in np.linspace(i, j, n):
+        for position in np.linspace(i, j, n):
             # [e._geomAdaptor().Curve().Curve().BasisCurve().BasisCurve() for e in pocket.DEBUG[0].Edges()]
-            end_cv_int = AddressVector.from_vector(edge.positionAt(length))
+            end_cv_int = AddressVector.from_vector(edge.positionAt(position, mode))
             commands.append(
                 Cut(
                     end_cv_int,
-- 
2.43.0


From 17238d6e38c223fd3336ce13079cc43555644aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 23/32] fix: overlapping paths add up instead of cancelling
 each other out

---
 src/cq_cam/utils/geometry_op.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 855a10e..6e00dc3 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -210,12 +210,17 @@ def offset_polyface(
         return [PathFace(outer, inners=[], depth=polyface.depth) for outer in outers]
 
 
+def orient_path(path):
+    """Overlapping paths add up only if they turn the same way"""
+    return path if pc.Orientation(path) else path[::-1]
+
+
 def prepare_path_boolean_op(subjects: list[Path], clips: list[Path]) -> pc.Pyclipper:
     clipper = pc.Pyclipper()
     # noinspection PyArgumentList
-    scaled_subjects = [pc.scale_to_clipper(subject) for subject in subjects]
+    scaled_subjects = [orient_path(pc.scale_to_clipper(path)) for path in subjects]
     # noinspection PyArgumentList
-    scaled_clips = [pc.scale_to_clipper(clip) for clip in clips]
+    scaled_clips = [orient_path(pc.scale_to_clipper(path)) for path in clips]
 
     clipper.AddPaths(scaled_subjects, pc.PT_SUBJECT)
 
@@ -229,7 +234,10 @@ def boolean_op_path_list(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> list[Path]:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = [pc.scale_from_clipper(result) for result in clipper.Execute(clip_type)]
+    results = [
+        pc.scale_from_clipper(result)
+        for result in clipper.Execute(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
+    ]
     return results
 
 
@@ -237,7 +245,7 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From bc198f177a2f6f41668786c82752aee52327888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 24/32] fix: faces inside the inners of other faces are kept

---
 src/cq_cam/utils/geometry_op.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 6e00dc3..c8f33f2 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -180,14 +180,15 @@ def close_path(path: OpenPath) -> ClosedPath:
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
     for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
             for child in face.Childs
         ]
         polyfaces.append(PathFace(outer, inners, depth))
+        # There may be further faces inside the inners
+        for child in face.Childs:
+            polyfaces += poly_tree_to_poly_faces(child, depth)
     return polyfaces
 
 
-- 
2.43.0


From fa59158f4753eeae9634ef164e1d5f76cc84ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:49 +0000
Subject: [PATCH 25/32] fix: islands of one pocket area don't hide or lose the
 other areas

---
 src/cq_cam/operations/pocket.py | 20 +++++++-------------
 src/cq_cam/utils/geometry_op.py | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index cf17043..a672256 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -10,12 +10,12 @@ from cq_cam.operations.pocket_cq import pocket_cq
 from cq_cam.routers import route_polyface_outers
 from cq_cam.utils.geometry_op import (
     OffsetInput,
-    Path,
     PathFace,
     calculate_offset,
     difference_poly_tree,
     offset_path,
     offset_polyface,
+    union_poly_faces,
     union_poly_tree,
 )
 from cq_cam.utils.tree import Tree
@@ -109,11 +109,6 @@ def combine_poly_faces(poly_faces: list[PathFace], depth) -> list[PathFace]:
     return difference_poly_tree(new_outers, inners, depth)
 
 
-def combine_outers(poly_faces: list[PathFace], depth) -> list[Path]:
-    outers = [poly_face.outer for poly_face in poly_faces]
-    return [poly_face.outer for poly_face in union_poly_tree(outers, [], depth)]
-
-
 def determine_stepdown_start_depth(
     pocket_op: PathFace, shallower_pocket_ops: list[PathFace]
 ) -> float | None:
@@ -164,8 +159,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
-        depth_inners = flatten_list(face.inners for face in depth_faces)
+        depth_ops = union_poly_faces(depth_faces, depth)
 
         if avoid_depths:
             active_avoid_depths = [
@@ -179,13 +173,13 @@ def build_pocket_ops(
             # A limitation here is that avoids only work with the outer polygon
             # Technically pyclipper does support multiple depths, so this could
             # be investigated further
-            depth_ops_with_avoid = difference_poly_tree(
-                depth_ops, depth_inners + avoid_outers, depth
-            )
-            pocket_ops += depth_ops_with_avoid
+            for depth_op in depth_ops:
+                pocket_ops += difference_poly_tree(
+                    [depth_op.outer], depth_op.inners + avoid_outers, depth
+                )
 
         else:
-            pocket_ops += difference_poly_tree(depth_ops, depth_inners, depth)
+            pocket_ops += depth_ops
 
     return pocket_ops
 
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index c8f33f2..8aa1189 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -266,6 +266,22 @@ def difference_poly_tree(
     )
 
 
+def union_poly_faces(poly_faces: list[PathFace], depth: float) -> list[PathFace]:
+    clipper = pc.Pyclipper()
+    for face in poly_faces:
+        # Inners turn the other way, so that they cut their own face only
+        # noinspection PyArgumentList
+        outer = orient_path(pc.scale_to_clipper(face.outer))
+        clipper.AddPath(outer, pc.PT_SUBJECT)
+        for inner in face.inners:
+            # noinspection PyArgumentList
+            inner = orient_path(pc.scale_to_clipper(inner))
+            clipper.AddPath(inner[::-1], pc.PT_SUBJECT)
+
+    results = clipper.Execute2(pc.CT_UNION, pc.PFT_POSITIVE, pc.PFT_POSITIVE)
+    return poly_tree_to_poly_faces(results, depth)
+
+
 def segment_length_squared(s1: Point, s2: Point):
     return (s2[0] - s1[0]) ** 2 + (s2[1] - s1[1]) ** 2
 
-- 
2.43.0


From f8dd8cb55dab669ee5df80bd7c5c8633f83e16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 26/32] fix: cq pockets with nothing to avoid at a depth are
 cut there

---
 src/cq_cam/operations/pocket_cq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 995a82f..037b0a2 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -82,6 +82,11 @@ def build_pocket_ops(
                     face.translate(cq.Vector(0, 0, depth - avoid_depth))
                     for face in avoid_depth_map[avoid_depth]
                 ]
+            if not avoid_faces:
+                # Everything to avoid is deeper
+                pocket_ops += depth_ops
+                continue
+
             depth_ops_with_avoid = []
             for i, depth_op in enumerate(depth_ops):
                 depth_ops_with_avoid += break_compound_to_faces(
-- 
2.43.0


From 05d2bdbf9b79a478229a275b42ab9237d0f0cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 27/32] fix: pockets are cut along their islands

---
 src/cq_cam/operations/pocket.py    | 5 ++++-
 src/cq_cam/operations/pocket_cq.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index a672256..37a08e5 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -217,7 +217,10 @@ def fill_pocket_contour_shrink(
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking contour may pass an island by up to a step
+    return tree.sequences + [
+        [PathFace(inner, [], pocket.depth)] for inner in pocket.inners
+    ]
 
 
 def pocket_clipper(
diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 037b0a2..8ddc4dc 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -139,7 +139,8 @@ def fill_pocket_contour_shrink(pocket: cq.Face, step: float) -> list[list[cq.Wir
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking contour may pass an island by up to a step
+    return tree.sequences + [[inner] for inner in pocket.innerWires()]
 
 
 def pocket_cq(
-- 
2.43.0


From a39a1fce31c5ae8df389d22b07f4b91bb35dfb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 28/32] fix: the cq pocket engine steps down instead of
 ignoring it

---
 src/cq_cam/operations/pocket.py    |  2 +-
 src/cq_cam/operations/pocket_cq.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 37a08e5..0220aa7 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -58,7 +58,6 @@ def pocket(
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
     avoid_areas = [face.transformShape(job.top.fG) for face in avoid_areas]
 
-    # TODO stepdown
     if engine == "clipper":
         return pocket_clipper(
             job,
@@ -81,6 +80,7 @@ def pocket(
             avoid_outer_offset,
             avoid_inner_offset,
             stepover,
+            stepdown,
         )
     else:
         raise ValueError("Unknown engine")
diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 8ddc4dc..f8df813 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -3,6 +3,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 import cadquery as cq
+import numpy as np
 from OCP.StdFail import StdFail_NotDone
 from OCP.TopAbs import TopAbs_FACE
 from OCP.TopExp import TopExp_Explorer
@@ -152,6 +153,7 @@ def pocket_cq(
     avoid_outer_offset: float,
     avoid_inner_offset: float,
     stepover: float,
+    stepdown: float | None = None,
 ):
     # Offset faces
     offset_op_areas = []
@@ -169,7 +171,17 @@ def pocket_cq(
     # Apply pocket fill (convert to Wire)
     sequences: list[list[cq.Wire]] = []
     for pocket_op in pocket_ops:
-        sequences += fill_pocket_contour_shrink(pocket_op, stepover)
+        fill_sequences = fill_pocket_contour_shrink(pocket_op, stepover)
+        if stepdown:
+            depth = pocket_op.BoundingBox().zmax
+            for step_depth in np.arange(-stepdown, depth, -stepdown):
+                location = cq.Location(cq.Vector(0, 0, step_depth - depth))
+                sequences += [
+                    [wire.moved(location) for wire in sequence]
+                    for sequence in fill_sequences
+                ]
+
+        sequences += fill_sequences
 
     # Route wires
     commands = []
-- 
2.43.0


From 0dbf3c843af3bb3be200cef514bc898430bd514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 29/32] fix: link the paths of a pocket by their distance, not
 its square

---
 src/cq_cam/routers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 3764b91..78e74ec 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose
+from math import isclose, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -350,9 +350,10 @@ def route_polyface_outers(
         # Determine how to access the wire
         # Direct plunge option
         if previous_wire_end:
-            distance, closest_point, poly_position = distance_to_path(
+            distance_squared, closest_point, poly_position = distance_to_path(
                 previous_wire_end, poly
             )
+            distance = sqrt(distance_squared)
         else:
             distance, closest_point, poly_position = None, None, None
 
-- 
2.43.0


From 7e218cc37b717adb5aedd17773f1096d5cc88bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 30/32] fix: tabs that overlap are cut as one

---
 src/cq_cam/operations/tabs.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 0655d75..533d28a 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -6,6 +6,17 @@ import numpy as np
 from cq_cam.utils.utils import wire_to_ordered_edges
 
 
+def merge_ranges(ranges):
+    """Tabs that overlap are a single tab"""
+    merged = []
+    for start, end in sorted(ranges):
+        if merged and start <= merged[-1][1]:
+            merged[-1] = (merged[-1][0], max(merged[-1][1], end))
+        else:
+            merged.append((start, end))
+    return merged
+
+
 class Transition(Enum):
     NORMAL = 0
     TAB = 1
@@ -64,7 +75,7 @@ class EdgeTabs(Tabs):
                 edge_ds.append((d - half_d, d + half_d))
 
     def edge_tab_transitions(self, edge_index):
-        edge_ds = self.edges_ds[edge_index]
+        edge_ds = merge_ranges(self.edges_ds[edge_index])
         transitions = [(0, Transition.NORMAL)]
         for tab_start_d, tab_end_d in edge_ds:
             transitions.append((tab_start_d, Transition.TAB))
@@ -99,7 +110,7 @@ class WireTabs(Tabs):
             if range[1] > 1:
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
-        self.wire_tab_ds = sorted(wire_tab_ds)
+        self.wire_tab_ds = merge_ranges(wire_tab_ds)
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
-- 
2.43.0


From b7e2054e4b5662aac8e7fb8b5dd08400c06f5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 31/32] fix: tabs that begin or end at a corner keep their
 vertical edges

---
 src/cq_cam/operations/profile.py | 18 +++++++++++++++---
 src/cq_cam/operations/tabs.py    | 30 ++++++++++++++++++------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 1e42b9f..30b76e2 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -107,13 +107,23 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     tabs.load_ordered_edges(edges)
 
     new_edges = []
+    previous_edge = None
+    previous_is_tab = False
     for i, edge in enumerate(edges):
         transitions = tabs.edge_tab_transitions(i)
         if all(t[1] == Transition.NORMAL for t in transitions):
+            if previous_is_tab:
+                # Plunge
+                new_edges.append(
+                    cq.Edge.makeLine(
+                        edge_end_point(previous_edge), edge_start_point(edge)
+                    )
+                )
+            previous_edge = edge
+            previous_is_tab = False
             new_edges.append(edge)
             continue
 
-        previous_edge = None
         for t_start, t_end in zip(transitions, transitions[1:]):
             t_start_p, t_end_p, e_reversed = edge_oriented_param(
                 edge, t_start[0], t_end[0]
@@ -139,7 +149,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     projected_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                if previous_edge:
+                if previous_edge and not previous_is_tab:
                     # Retract
                     # retract = cq.Edge.makeLine(edge_end_point(previous_edge), edge_start_point(projected_edge))
                     retract = cq.Edge.makeLine(
@@ -148,6 +158,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                     new_edges.append(retract)
 
                 previous_edge = projected_edge
+                previous_is_tab = True
                 new_edges.append(projected_edge)
             else:
                 sliced_edge = cq.Edge(BRepBuilderAPI_MakeEdge(curve, p1, p2).Edge())
@@ -160,13 +171,14 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 # affect the underlying curve..
                 sliced_edge.move(edge.location())
                 # Plunge
-                if previous_edge:
+                if previous_edge and previous_is_tab:
                     plunge = cq.Edge.makeLine(
                         edge_end_point(previous_edge), edge_start_point(sliced_edge)
                     )
                     new_edges.append(plunge)
 
                 previous_edge = sliced_edge
+                previous_is_tab = False
                 new_edges.append(sliced_edge)
 
     global TAB_ERRORS
diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 533d28a..c01a83e 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -6,11 +6,16 @@ import numpy as np
 from cq_cam.utils.utils import wire_to_ordered_edges
 
 
+# A tab that starts or ends this close to another tab, or to the end of
+# an edge, starts or ends there
+EDGE_TOLERANCE = 1e-6
+
+
 def merge_ranges(ranges):
     """Tabs that overlap are a single tab"""
     merged = []
     for start, end in sorted(ranges):
-        if merged and start <= merged[-1][1]:
+        if merged and start <= merged[-1][1] + EDGE_TOLERANCE:
             merged[-1] = (merged[-1][0], max(merged[-1][1], end))
         else:
             merged.append((start, end))
@@ -128,22 +133,23 @@ class WireTabs(Tabs):
 
     def edge_tab_transitions(self, edge_index):
         edge_range = self.edge_ranges[edge_index]
-        edge_start_d, edge_end_d = edge_range
         transitions = []
         for tab_start_d, tab_end_d in self.wire_tab_ds:
-            # Tab crosses start
-            if tab_start_d <= edge_start_d < tab_end_d:
-                transitions.append((0, Transition.TAB))
+            start_d = self.wire_d_to_edge_d(tab_start_d, edge_range)
+            end_d = self.wire_d_to_edge_d(tab_end_d, edge_range)
+
+            # Tab is on other edges, and touches this one at most
+            if end_d < EDGE_TOLERANCE or start_d > 1 - EDGE_TOLERANCE:
+                continue
 
-            # Tab starts inside edge
-            if edge_start_d < tab_start_d <= edge_end_d:
-                edge_d = min(max(self.wire_d_to_edge_d(tab_start_d, edge_range), 0), 1)
-                transitions.append((edge_d, Transition.TAB))
+            # Tab starts before or inside edge
+            transitions.append(
+                (0 if start_d < EDGE_TOLERANCE else start_d, Transition.TAB)
+            )
 
             # Tab ends inside edge
-            if edge_start_d < tab_end_d <= edge_end_d:
-                edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
-                transitions.append((edge_d, Transition.NORMAL))
+            if end_d <= 1 - EDGE_TOLERANCE:
+                transitions.append((end_d, Transition.NORMAL))
 
         # Add helper transitions for later processing
         if not transitions or transitions[0][0] != 0:
-- 
2.43.0


From d27a21f7ea3db8296426418981b027315e100d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:33 +0000
Subject: [PATCH 32/32] fix: pockets with more passes inside one another than
 the call stack is deep

---
 src/cq_cam/utils/tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/tree.py b/src/cq_cam/utils/tree.py
index 0e0564a..f703f60 100644
--- a/src/cq_cam/utils/tree.py
+++ b/src/cq_cam/utils/tree.py
@@ -23,7 +23,13 @@ class Node:
 
     @property
     def parents(self):
-        return [self.parent] + self.parent.parents if self.parent else []
+        # Not recursive, a tree can be deeper than the call stack may be
+        parents = []
+        parent = self.parent
+        while parent:
+            parents.append(parent)
+            parent = parent.parent
+        return parents
 
     @property
     def traverse(self):
-- 
2.43.0

