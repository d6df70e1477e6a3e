From f510bf300405f8d2f0faae5434f71b1e5c425997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 01/24] fix: an operation's tool settings no longer leak into
 the job it was called on

---
 src/cq_cam/fluent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..4893389 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -133,6 +133,9 @@ class Job:
             elif speed is not None and speed != self.speed:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
+            else:
+                # Never modify the job this was called on
+                self = copy(self)
 
             # Update Job attributes
             self.tool_number = tool_number
-- 
2.43.0


From 08a92996268730b6ecc286507eba5adac1323ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 02/24] fix: parentheses and line breaks in a job's name no
 longer break the program's comments

---
 src/cq_cam/fluent.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4893389..9dc1009 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -28,6 +28,12 @@ from cq_cam.visualize import visualize_job, visualize_job_as_edges
 logger = logging.getLogger(__name__)
 
 
+def _comment(text: str) -> str:
+    """G-code comments can not be nested and end with the line"""
+    text = " ".join(text.splitlines()).replace("(", "[").replace(")", "]")
+    return f"({text})"
+
+
 class Operation:
     def __init__(self, job: Job, name: str, commands: list[Command]):
         self.job = job
@@ -37,7 +43,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [_comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -275,8 +281,9 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        header = f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{_comment(header)}\n"
             f"{SafetyBlock()}\n"
             f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From e3a3720992d4dbcd0e8f8274104ef12f937e9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 03/24] fix: the safety block declares the job's unit, work
 offset and path mode

---
 src/cq_cam/command.py | 21 ++++++++++++++++++---
 src/cq_cam/fluent.py  |  5 +++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..40dec76 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,21 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    unit: Unit
+    coordinate: WorkOffset
+    controller_motion: PlannerControlMode
+
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +437,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +451,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 9dc1009..0aefc82 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -282,12 +282,13 @@ class Job:
     def to_gcode(self):
         task_break = "\n\n\n"
         header = f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
+        safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         return (
             f"{_comment(header)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From e6bee8f28c169224d3a774a4b396563c96896d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 04/24] fix: profile accepts a tool that supplies the tool
 diameter

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 0aefc82..ca8d279 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -163,6 +163,7 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
+        self = self.update_tool(tool)
         if self.tool_diameter is None:
             raise ValueError("Profile requires tool_diameter to be set")
 
@@ -170,7 +171,6 @@ class Job:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
-        self = self.update_tool(tool)
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From f61c7cc9b00abee0d7dc283bedf9ed8143c3df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 05/24] fix: the program starts at the job's initial spindle
 speed, not at the last one

---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index ca8d279..07f24f2 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -81,6 +81,8 @@ class Job:
         self.top_plane_face = cq.Face.makePlane(None, None, top.origin, top.zDir)
         self.feed = feed
         self.speed = speed
+        # The program starts with this speed, regardless of later speed changes
+        self.start_speed = speed
         self.tool_diameter = tool_diameter
         self.tool_number = tool_number
         self.name = name
@@ -286,7 +288,7 @@ class Job:
         return (
             f"{_comment(header)}\n"
             f"{safety_block}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=self.start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From a44907f66d9f1f7509af52383f299fccfd0c53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 06/24] fix: save_gcode writes the program instead of the job's
 repr

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 07f24f2..d21438d 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -296,7 +296,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From d200235ff06fabaf99efab9ccc3331778db5d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 07/24] fix: saving never leaves a truncated or mixed program
 file behind

---
 src/cq_cam/fluent.py      |  5 ++---
 src/cq_cam/utils/files.py | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)
 create mode 100644 src/cq_cam/utils/files.py

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index d21438d..d0f2497 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -21,6 +21,7 @@ from cq_cam.operations.pocket import pocket
 from cq_cam.operations.profile import profile
 from cq_cam.operations.tabs import Tabs
 from cq_cam.tool import Tool
+from cq_cam.utils.files import write_file
 from cq_cam.utils.geometry_op import OffsetInput
 from cq_cam.utils.utils import extract_wires, flatten_list
 from cq_cam.visualize import visualize_job, visualize_job_as_edges
@@ -296,9 +297,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = self.to_gcode()
-        with open(file_name, "w") as f:
-            f.write(gcode)
+        write_file(file_name, self.to_gcode())
 
     def show(self, show_object=None):
         if show_object is None:
diff --git a/src/cq_cam/utils/files.py b/src/cq_cam/utils/files.py
new file mode 100644
index 0000000..25ec268
--- /dev/null
+++ b/src/cq_cam/utils/files.py
@@ -0,0 +1,39 @@
+import errno
+import os
+import shutil
+from contextlib import suppress
+from uuid import uuid4
+
+
+def write_file(file_name, text: str):
+    """
+    Write a text file so that it is always complete: readers, and a crash at any
+    point, see either the earlier content or all of the new one.
+    """
+    path = os.path.realpath(os.fsdecode(file_name))
+
+    if not os.path.exists(path):
+        mode_from = None
+    elif not os.path.isfile(path):
+        # Pipes, devices and such can't be replaced
+        with open(path, "w", encoding="utf-8") as f:
+            f.write(text)
+        return
+    elif not os.access(path, os.W_OK):
+        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
+    else:
+        mode_from = path
+
+    tmp_path = os.path.join(os.path.dirname(path), f".{uuid4().hex}.tmp")
+    try:
+        with open(tmp_path, "x", encoding="utf-8") as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        if mode_from:
+            shutil.copymode(mode_from, tmp_path)
+        os.replace(tmp_path, path)
+    except BaseException:
+        with suppress(OSError):
+            os.unlink(tmp_path)
+        raise
-- 
2.43.0


From 4511b7b6b511ee208a3d7763be06bf417b4373c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 08/24] fix: tabs of edges that carry a location stay on the
 toolpath

---
 src/cq_cam/operations/profile.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..7c51d2e 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -3,6 +3,7 @@ import logging
 from typing import TYPE_CHECKING
 
 import cadquery as cq
+from OCP.BRep import BRep_Tool
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 from OCP.Geom import Geom_Plane
 from OCP.GeomProjLib import GeomProjLib
@@ -119,7 +120,8 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
-            curve = edge._geomAdaptor().Curve().Curve()
+            # Includes the location of the edge
+            curve = BRep_Tool.Curve_s(edge.wrapped, p1, p2)
 
             if t_start[1] == Transition.TAB:
                 projected_curve = GeomProjLib.ProjectOnPlane_s(
@@ -155,9 +157,6 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
                 # Plunge
                 if previous_edge:
                     plunge = cq.Edge.makeLine(
-- 
2.43.0


From ac8419f553c9b6ea909b484243176e61549d8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 09/24] fix: profiles of circles are cut around the circle
 instead of at twice its position

---
 src/cq_cam/utils/circle_bug_workaround.py | 22 ++++++++++++++++++++++
 src/cq_cam/utils/geometry_op.py           |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..64dbf72 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -1,4 +1,6 @@
 import cadquery as cq
+from OCP.BRep import BRep_Tool
+from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 
 
 def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
@@ -16,3 +18,23 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
             # OCCT bug with offsetting circles!
             for target in target_wires:
                 target.wrapped.Location(source_wire.wrapped.Location().Inverted())
+
+
+def bake_closed_edge(wire: cq.Wire) -> cq.Wire:
+    """
+    Offsetting a wire that is a single closed edge applies the location of the
+    wire and of the edge twice. Moving the location into the curve avoids that.
+
+    :param wire:
+    :return: wire in the same place, without a location if it is a single closed edge
+    """
+    edges = wire.Edges()
+    if len(edges) != 1 or not edges[0].IsClosed():
+        return wire
+    edge = edges[0].wrapped
+    start, end = edges[0]._bounds()
+    baked_edge = BRepBuilderAPI_MakeEdge(
+        BRep_Tool.Curve_s(edge, start, end), start, end
+    ).Edge()
+    baked_edge.Orientation(edge.Orientation())
+    return cq.Wire.assembleEdges([cq.Edge(baked_edge)])
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..78800be 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -10,7 +10,7 @@ import pyclipper as pc
 import shapely
 from OCP.StdFail import StdFail_NotDone
 
-from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
+from cq_cam.utils.circle_bug_workaround import bake_closed_edge
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
 from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
 
@@ -71,6 +71,7 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    wire = bake_closed_edge(wire)
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
@@ -95,7 +96,6 @@ def offset_wire(
         except:
             logger.error("NOT PLANAR!")
 
-    circle_bug_workaround(wire, validated_wires)
     return validated_wires
 
 
-- 
2.43.0


From c1c3c00eb190cb7a65fa1480688530e9507827c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 10/24] fix: full circles are cut instead of dropped as tiny
 arcs

---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..9fe0df4 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From f4b97e3e63ca2f02aedaf9a29e172fb6b8b97aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 11/24] fix: interrupts are not swallowed by profiles, tabs and
 drawings

---
 src/cq_cam/command.py            | 4 ++--
 src/cq_cam/operations/profile.py | 2 +-
 src/cq_cam/utils/geometry_op.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 40dec76..8e9086b 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -349,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         # else:
         try:
             edge = cq.Edge.makeThreePointArc(self.start, mid, end)
-        except:
+        except Exception:
             try:
                 edge = cq.Edge.makeLine(self.start, end)
-            except:
+            except Exception:
                 # Too small to render ?
                 return None
         if as_edges:
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 7c51d2e..28ce816 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -170,7 +170,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     global TAB_ERRORS
     try:
         return cq.Wire.assembleEdges(new_edges)
-    except:
+    except Exception:
         logger.error("Failed to create tabs, see TAB_ERRORS")
         TAB_ERRORS += new_edges
         return wire
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 78800be..278649f 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -93,7 +93,7 @@ def offset_wire(
                 validated_wires.append(wire)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
-        except:
+        except Exception:
             logger.error("NOT PLANAR!")
 
     return validated_wires
-- 
2.43.0


From d80c938bb28749504ed0fcb478dcdb6165d203d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 12/24] fix: a wire that can not be offset is reported instead
 of silently left out

---
 src/cq_cam/utils/geometry_op.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 278649f..3f7c04d 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -81,6 +81,7 @@ def offset_wire(
         try:
             offset_wires = wire.offset2D(offset + 0.000001, kind)
         except ValueError:
+            logger.warning("Failed to offset wire")
             return []
 
     validated_wires = []
-- 
2.43.0


From 35183974e28a578e9a46c291b9d6ebea01bb79aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 13/24] fix: an edge as long as the tab spacing does not lose
 its tab to rounding

---
 src/cq_cam/operations/tabs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..d1fed38 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -55,7 +55,9 @@ class EdgeTabs(Tabs):
             if self.only:
                 if geom_type != self.only:
                     continue
-            count = int(length // self.spacing)
+            # Lengths are subject to rounding (an edge exactly as long as the
+            # spacing must not lose its tab)
+            count = int(length / self.spacing + 0.001)
             if count <= 0:
                 continue
 
-- 
2.43.0


From 7ddfac58572e248cc15f6df99737a3399f8ea2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 14/24] fix: tabs can be shared between threads

---
 src/cq_cam/operations/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 28ce816..72c60fb 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -1,5 +1,6 @@
 import itertools
 import logging
+from copy import copy
 from typing import TYPE_CHECKING
 
 import cadquery as cq
@@ -101,6 +102,8 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
 
     tab_plane = cq.Plane((0, 0, tab_z))
 
+    # The caller's object may be in use for another wire (in another thread)
+    tabs = copy(tabs)
     edges = wire_to_ordered_edges(wire)
     if getattr(tabs, "load_wire", None):
         tabs.load_wire(wire)
-- 
2.43.0


From c8a2b0d780f504035f1c94710a4cb72e3c47d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:27 +0000
Subject: [PATCH 15/24] fix: pockets of faces that have been tessellated keep
 their depth

---
 src/cq_cam/utils/geometry_op.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 3f7c04d..3f681b9 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -45,7 +45,9 @@ class PathFace:
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # The box of a face that has been tessellated (shown in a viewer for
+            # example) is larger by its tolerance
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From c810bab7867ac4dbef665a32c8a43d5c35050cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 16/24] fix: 3D surface operations leave the caller's shapes
 alone

---
 src/cq_cam/operations/op3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..47d53f0 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -39,7 +39,9 @@ class Surface3D(FaceBaseOperation):
         :return:
         """
         super().__post_init__()
-        faces = self.transform_shapes_to_global(self._faces)
+        # Meshing and boolean operations leave traces in the shapes they are given,
+        # so work on copies of the caller's faces
+        faces = self.transform_shapes_to_global([face.copy() for face in self._faces])
         compound = cq.Workplane().add(faces).combine().objects[0]
         bb = compound.BoundingBox()
 
-- 
2.43.0


From 1e62dc473465380d161f7b6a7637dffa4d9a154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 17/24] fix: profiles leave the caller's wires alone

---
 src/cq_cam/operations/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 72c60fb..ded6cb8 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -46,8 +46,9 @@ def profile(
     :param tabs:
     :return:
     """
-    # Transform to relative coordinates
-    wire = wire.transformShape(job.top.fG)
+    # Transform to relative coordinates (a copy, as boolean operations leave
+    # traces in the shapes they are given)
+    wire = wire.copy().transformShape(job.top.fG)
 
     # Generate base features
     base_features = offset_wire(wire, offset * job.tool_radius)
-- 
2.43.0


From a6239fa94d66424326ab645fc9699e43f0e44652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 18/24] fix: arcs are drawn as arcs

---
 src/cq_cam/command.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 8e9086b..011b884 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,10 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        # Addresses are not vectors, the geometry kernel only takes the latter
+        start = self.start.to_vector(cq.Vector(0, 0, 0))
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +350,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except Exception:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except Exception:
                 # Too small to render ?
                 return None
-- 
2.43.0


From f094eb309764089e952cfd403c466a62bfb91c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 19/24] fix: bound the cache of distances

Every pair of points of every model worked on was kept for as long as the
process lives.
---
 src/cq_cam/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..51b7796 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -1,6 +1,6 @@
 import itertools
 import math
-from functools import cache
+from functools import lru_cache
 from typing import Iterable, T, Union
 
 import numpy as np
@@ -276,7 +276,7 @@ def dist2(v: tuple[float, float], w: tuple[float, float]) -> float:
     return (v[0] - w[0]) ** 2 + (v[1] - w[1]) ** 2
 
 
-@cache
+@lru_cache(maxsize=1024)
 def cached_dist2(p1: tuple[float, float], p2: tuple[float, float]):
     return dist2(p1, p2)
 
-- 
2.43.0


From c0bd931b227539a0968fc00db8287cfc53273b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 20/24] fix: keep only the latest tab failure

The edges of every failure were kept for as long as the process lives.
---
 src/cq_cam/operations/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index ded6cb8..d50cc31 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -171,10 +171,10 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 previous_edge = sliced_edge
                 new_edges.append(sliced_edge)
 
-    global TAB_ERRORS
     try:
         return cq.Wire.assembleEdges(new_edges)
     except Exception:
         logger.error("Failed to create tabs, see TAB_ERRORS")
-        TAB_ERRORS += new_edges
+        # Only the latest failure, not those of the whole session
+        TAB_ERRORS[:] = new_edges
         return wire
-- 
2.43.0


From f463bd86d23c286dec26ab429cd1959209a6a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 21/24] fix: pockets reject a stepover that is not positive

The contours never shrink, so filling the pocket never ended.
---
 src/cq_cam/operations/pocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..4f1a14f 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -51,6 +51,9 @@ def pocket(
     avoid_outer_offset = calculate_offset(job.tool_radius, avoid_outer_offset, 1)
     avoid_inner_offset = calculate_offset(job.tool_radius, avoid_inner_offset, -1)
     stepover = calculate_offset(job.tool_radius, stepover, 0.5)
+    # The contours have to shrink (by more than the resolution of the clipper)
+    if not round(stepover, 9) > 0:
+        raise ValueError("Stepover must be positive")
 
     # Transform to job plane
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
-- 
2.43.0


From dc86b3a09438bcd2f48029a4a15db084969b5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:57 +0000
Subject: [PATCH 22/24] fix: the side a circle is profiled on does not depend
 on its orientation

---
 src/cq_cam/utils/circle_bug_workaround.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 64dbf72..2571baa 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -1,6 +1,7 @@
 import cadquery as cq
 from OCP.BRep import BRep_Tool
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
+from OCP.TopAbs import TopAbs_REVERSED
 
 
 def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
@@ -33,8 +34,10 @@ def bake_closed_edge(wire: cq.Wire) -> cq.Wire:
         return wire
     edge = edges[0].wrapped
     start, end = edges[0]._bounds()
-    baked_edge = BRepBuilderAPI_MakeEdge(
-        BRep_Tool.Curve_s(edge, start, end), start, end
-    ).Edge()
-    baked_edge.Orientation(edge.Orientation())
+    curve = BRep_Tool.Curve_s(edge, start, end)
+    if edge.Orientation() == TopAbs_REVERSED:
+        # A reversed edge would be offset to the wrong side, a reversed curve is not
+        start, end = curve.ReversedParameter(end), curve.ReversedParameter(start)
+        curve = curve.Reversed()
+    baked_edge = BRepBuilderAPI_MakeEdge(curve, start, end).Edge()
     return cq.Wire.assembleEdges([cq.Edge(baked_edge)])
-- 
2.43.0


From 0964944d3d72fcde7e3a3abf6fc8e2413f3dd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 23/24] fix: tabs around the end of a wire stay in order

---
 src/cq_cam/operations/tabs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index d1fed38..4b7fbbc 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -136,6 +136,9 @@ class WireTabs(Tabs):
                 edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.NORMAL))
 
+        # The tab that crosses the end of the wire is listed first
+        transitions.sort(key=lambda transition: transition[0])
+
         # Add helper transitions for later processing
         if not transitions or transitions[0][0] != 0:
             transitions.insert(0, (0, Transition.NORMAL))
-- 
2.43.0


From 56c707b498ec4b3ccf12c08cef256ca8ed824bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:01 +0000
Subject: [PATCH 24/24] fix: profiles reject a stepdown that is not positive

With minus infinity or NaN the layers never got to the top.
---
 src/cq_cam/operations/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index d50cc31..040aaaf 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -46,6 +46,10 @@ def profile(
     :param tabs:
     :return:
     """
+    # The layers never get to the top otherwise
+    if stepdown and not stepdown > 0:
+        raise ValueError("Stepdown must be positive")
+
     # Transform to relative coordinates (a copy, as boolean operations leave
     # traces in the shapes they are given)
     wire = wire.copy().transformShape(job.top.fG)
-- 
2.43.0

