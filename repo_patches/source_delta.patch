From ed08e48a5c1703fd507783ccd80dd49fa946457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 01/21] fix: subtract region from multisegmental emitting every
 segment twice

---
 rene/_clipping/difference.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..f337b6a 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -689,7 +690,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
-- 
2.43.0


From cc480933ceb5fcb102496272135a65f1df910720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/21] fix: skip of subtraction of region from multisegmental
 with degenerate boxes intersection

---
 rene/_clipping/difference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index f337b6a..e21cc32 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -645,7 +645,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From 6da09b15cf763773daea5e2d7583571465498353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/21] fix: removal of sweep line events in relating of linear
 with shaped

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 079864fdd604f5e9735eaeb19b1b9aa9d54d27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 04/21] fix: grouping of equal segments events in relating of
 touching segments

---
 rene/_relating/linear.py | 5 ++++-
 rene/_relating/mixed.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..f40447f 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -581,7 +581,10 @@ class RelationState(Generic[hints.ScalarT]):
     ) -> None:
         for _, group in chain(
             groupby(
-                filter(is_event_left, same_start_events),
+                sorted(
+                    filter(is_event_left, same_start_events),
+                    key=operation.to_event_end,
+                ),
                 key=operation.to_event_end,
             )
         ):
diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..79d710c 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -576,7 +576,10 @@ class RelationState(Generic[hints.ScalarT]):
                 self.linear_intersects_shaped_border = True
             for _, group in chain(
                 groupby(
-                    filter(is_event_left, same_start_events),
+                    sorted(
+                        filter(is_event_left, same_start_events),
+                        key=operation.to_event_end,
+                    ),
                     key=operation.to_event_end,
                 )
             ):
-- 
2.43.0


From 4bc5c713d51e9aa5105ffec0c2e287bbc4e22106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 05/21] fix: detection of multisegmental being subset of
 multipolygon

---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..b8c014f 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -280,7 +280,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..3dfc0ab 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -108,7 +108,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From ccd23f763d1df002da2b9bede9a7557c9b25a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/21] fix: relation of multipolygon to multisegmental with
 disjoint polygons boxes

---
 rene/_relating/multipolygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index b8c014f..8b35e68 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
-- 
2.43.0


From c428134a7dc8568c72326e532f74718410e7a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/21] fix: relation of shaped to linear being reversed

---
 rene/_relating/multipolygon.py | 12 +++++++-----
 rene/_relating/polygon.py      | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 8b35e68..95b4c7f 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -193,7 +193,9 @@ def relate_to_segment(
         [segment],
         orienteer,
         segments_intersector,
-    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
+    ).to_relation(
+        linear_is_subset_of_shaped=True, min_max_x=min_max_x
+    ).complement
 
 
 _Multisegmental: TypeAlias = (
@@ -232,12 +234,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
@@ -285,4 +287,4 @@ def relate_to_multisegmental(
         linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
-    )
+    ).complement
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..12f7c91 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -129,7 +129,9 @@ def relate_to_segment(
         [segment],
         orienteer,
         segments_intersector,
-    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
+    ).to_relation(
+        linear_is_subset_of_shaped=True, min_max_x=min_max_x
+    ).complement
 
 
 _Multisegmental: TypeAlias = (
@@ -168,12 +170,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
@@ -197,4 +199,4 @@ def relate_to_multisegmental(
         linear_is_subset_of_shaped=len(intersecting_segments_ids)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
-    )
+    ).complement
-- 
2.43.0


From 4d49855f2c5f2fbf55cebedfb6987c5b2c6cbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 08/21] fix: relation of multisegmentals with single segment
 common with other

---
 rene/_relating/multisegmental.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 3dfc0ab..299992b 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -143,8 +143,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE
+                if relation is Relation.EQUAL
+                else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -178,7 +182,11 @@ def relate_to_multisegmental(
                     )
                 )
             )
-            else relation.complement
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
+            )
         )
     max_min_x = max(
         min(
-- 
2.43.0


From 01317e97c5bbae1ab984c55ba91de664766154d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/21] fix: relation of segment to polygon for segment
 touching polygon border

---
 rene/_relating/segment.py | 41 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..4897683 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -127,36 +127,19 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
+    segment_bounding_box, polygon_bounding_box = (
+        segment.bounding_box,
+        polygon.bounding_box,
     )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
+    if segment_bounding_box.disjoint_with(polygon_bounding_box):
+        return Relation.DISJOINT
+    min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
 def relate_to_region(
-- 
2.43.0


From 0d72a681f8ed7392578269d43ac8792ed6c44b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/21] fix: location of interior for closing edge of contour
 in trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From 524a7e6508b924cc50456e3f41ceae34f16f6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/21] fix: trapezoidation for edges passing through endpoints
 of others

---
 rene/_seidel/edge.py           |  8 +++++
 rene/_seidel/trapezoidation.py | 65 +++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/rene/_seidel/edge.py b/rene/_seidel/edge.py
index f50e5ce..bc65ed8 100644
--- a/rene/_seidel/edge.py
+++ b/rene/_seidel/edge.py
@@ -46,6 +46,14 @@ class Edge(Generic[hints.ScalarT]):
             point,
         )
 
+    def with_left_point_index(self, left_point_index: int, /) -> Self:
+        return type(self)(
+            left_point_index,
+            self.right_point_index,
+            interior_to_left=self.interior_to_left,
+            orienteer=self._orienteer,
+        )
+
     _orienteer: Orienteer[hints.ScalarT]
 
     __slots__ = (
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 32b239a..7d8d136 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -570,37 +570,37 @@ def _find_intersecting_trapezoids(
     /,
 ) -> list[Trapezoid]:
     edge = edges[edge_index]
-    cursor = nodes[0]
-    for _ in repeat(None, len(nodes) - 1):
-        candidate = cursor.search_edge_node(edge, edges, endpoints, nodes)
-        if candidate is cursor:
-            break
-        cursor = candidate
-    assert isinstance(cursor, Leaf), cursor
-    trapezoid = cursor.trapezoid
+    trapezoid = _search_trapezoid(edge, edges, endpoints, nodes)
     result = [trapezoid]
     right = endpoints[edge.right_point_index]
     while endpoints[trapezoid.right_point_index] < right:
-        candidate_index = (
-            (
-                trapezoid.upper_right_node_index
-                or trapezoid.lower_right_node_index
+        right_point_orientation = edge.orientation_of(
+            endpoints[trapezoid.right_point_index], endpoints
+        )
+        if right_point_orientation is Orientation.COLLINEAR:
+            # edge passes through the point from which other edges may start
+            trapezoid = _search_trapezoid(
+                edge.with_left_point_index(trapezoid.right_point_index),
+                edges,
+                endpoints,
+                nodes,
             )
-            if (
-                edge.orientation_of(
-                    endpoints[trapezoid.right_point_index], endpoints
+        else:
+            candidate_index = (
+                (
+                    trapezoid.upper_right_node_index
+                    or trapezoid.lower_right_node_index
+                )
+                if right_point_orientation is Orientation.CLOCKWISE
+                else (
+                    trapezoid.lower_right_node_index
+                    or trapezoid.upper_right_node_index
                 )
-                is Orientation.CLOCKWISE
             )
-            else (
-                trapezoid.lower_right_node_index
-                or trapezoid.upper_right_node_index
+            assert candidate_index is not None, (
+                'Expected neighbour trapezoid, but none found.'
             )
-        )
-        assert candidate_index is not None, (
-            'Expected neighbour trapezoid, but none found.'
-        )
-        trapezoid = _get_trapezoid(candidate_index, nodes)
+            trapezoid = _get_trapezoid(candidate_index, nodes)
         result.append(trapezoid)
     return result
 
@@ -728,3 +728,20 @@ def _replace_node(
         len(nodes) - 1,
     )
     nodes[original_index] = nodes.pop()
+
+
+def _search_trapezoid(
+    edge: Edge[hints.ScalarT],
+    edges: Sequence[Edge[hints.ScalarT]],
+    endpoints: Sequence[hints.Point[hints.ScalarT]],
+    nodes: Sequence[Node[hints.ScalarT]],
+    /,
+) -> Trapezoid:
+    cursor = nodes[0]
+    for _ in repeat(None, len(nodes) - 1):
+        candidate = cursor.search_edge_node(edge, edges, endpoints, nodes)
+        if candidate is cursor:
+            break
+        cursor = candidate
+    assert isinstance(cursor, Leaf), cursor
+    return cursor.trapezoid
-- 
2.43.0


From d507ce77f19b51e483a778a8780cd039cc7d8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 12/21] fix: reporting of segment divided at the touch point as
 self-intersecting

---
 rene/_bentley_ottmann/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_bentley_ottmann/base.py b/rene/_bentley_ottmann/base.py
index f29cfd1..77af96f 100644
--- a/rene/_bentley_ottmann/base.py
+++ b/rene/_bentley_ottmann/base.py
@@ -111,14 +111,14 @@ def segments_ids_containing_point_to_intersections(
     /,
 ) -> Iterable[Intersection[hints.ScalarT]]:
     for first_segment_id, second_segment_id in combinations(segments_ids, 2):
+        if first_segment_id == second_segment_id:
+            # parts of the same segment divided by the point
+            continue
         first_start = events_registry.to_segment_start(first_segment_id)
         first_end = events_registry.to_segment_end(first_segment_id)
         second_start = events_registry.to_segment_start(second_segment_id)
         second_end = events_registry.to_segment_end(second_segment_id)
-        if first_segment_id == second_segment_id:
-            start, end = first_start, first_end
-            relation = Relation.EQUAL
-        elif not events_registry.are_collinear(
+        if not events_registry.are_collinear(
             first_segment_id, second_segment_id
         ):
             if (
-- 
2.43.0


From cffff043c739091c9bbe0c7027941fc1a684ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 13/21] fix: constrained Delaunay triangulation for
 counterclockwise holes and holes with collinear vertices

---
 rene/_triangulation/constrained_delaunay.py | 84 ++++++++++++++-------
 1 file changed, 56 insertions(+), 28 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..f11f103 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -9,7 +9,11 @@ from typing_extensions import Self
 
 from rene import hints
 from rene._relating import segment_endpoints
-from rene._utils import locate_point_in_point_point_point_circle
+from rene._utils import (
+    locate_point_in_point_point_point_circle,
+    to_arg_min,
+    to_contour_orientation,
+)
 from rene.enums import Location, Orientation, Relation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
@@ -34,7 +38,10 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
     ) -> Self:
         contours_vertices = [
             polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            *[
+                to_clockwise_contour_vertices(hole.vertices, orienteer)
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
@@ -517,32 +524,10 @@ def is_segment_inside_hole(
     prior_to_end_point = hole_vertices[end_vertex_index - 1]
     next_to_start_point = hole_vertices[(start_vertex_index + 1) % hole_size]
     next_to_end_point = hole_vertices[(end_vertex_index + 1) % hole_size]
-    start_angle_orientation = orienteer(
-        start, prior_to_start_point, next_to_start_point
-    )
-    end_angle_orientation = orienteer(
-        end, prior_to_end_point, next_to_end_point
-    )
-    return (
-        (end_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            end,
-            prior_to_end_point,
-            next_to_end_point,
-            end_angle_orientation,
-            start,
-            orienteer,
-        )
-    ) and (
-        (start_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            start,
-            prior_to_start_point,
-            next_to_start_point,
-            start_angle_orientation,
-            end,
-            orienteer,
-        )
+    return does_hole_angle_contain_point(
+        end, prior_to_end_point, next_to_end_point, start, orienteer
+    ) and does_hole_angle_contain_point(
+        start, prior_to_start_point, next_to_start_point, end, orienteer
     )
 
 
@@ -588,6 +573,34 @@ def to_contours_constraints_flags(
     return result
 
 
+def does_hole_angle_contain_point(
+    vertex: hints.Point[hints.ScalarT],
+    prior_to_vertex_point: hints.Point[hints.ScalarT],
+    next_to_vertex_point: hints.Point[hints.ScalarT],
+    point: hints.Point[hints.ScalarT],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> bool:
+    angle_orientation = orienteer(
+        vertex, prior_to_vertex_point, next_to_vertex_point
+    )
+    if angle_orientation is Orientation.COLLINEAR:
+        return (
+            orienteer(prior_to_vertex_point, vertex, point)
+            is Orientation.CLOCKWISE
+        )
+    return (
+        angle_orientation is Orientation.COUNTERCLOCKWISE
+    ) is angle_contains_point(
+        vertex,
+        prior_to_vertex_point,
+        next_to_vertex_point,
+        angle_orientation,
+        point,
+        orienteer,
+    )
+
+
 def edge_should_be_swapped(
     mesh: Mesh[hints.ScalarT],
     edge: QuadEdge,
@@ -762,6 +775,21 @@ def to_angle_containing_constraint_base(
     return edge
 
 
+def to_clockwise_contour_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> Sequence[hints.Point[hints.ScalarT]]:
+    return (
+        vertices
+        if (
+            to_contour_orientation(vertices, to_arg_min(vertices), orienteer)
+            is Orientation.CLOCKWISE
+        )
+        else vertices[::-1]
+    )
+
+
 def to_constraint_index(
     first_vertex_index: int, second_vertex_index: int, /
 ) -> int:
-- 
2.43.0


From a9f67fa44f6b68b0567c3aa25bbd3344b1cf7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 14/21] fix: constrained Delaunay triangulation for holes
 touching edges of other contours

---
 rene/_triangulation/constrained_delaunay.py | 40 +++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index f11f103..f25b3d2 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from collections import deque
 from itertools import chain, groupby
 from operator import attrgetter
@@ -10,6 +11,7 @@ from typing_extensions import Self
 from rene import hints
 from rene._relating import segment_endpoints
 from rene._utils import (
+    deduplicate,
     locate_point_in_point_point_point_circle,
     to_arg_min,
     to_contour_orientation,
@@ -43,6 +45,10 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
                 for hole in polygon.holes
             ],
         ]
+        if polygon.holes:
+            contours_vertices = split_contours_edges_by_touching_vertices(
+                contours_vertices, orienteer
+            )
         vertices = list(
             chain.from_iterable(
                 (
@@ -744,6 +750,40 @@ def set_constraint(
     restore_delaunay_criterion(mesh, new_edges, orienteer)
 
 
+def split_contours_edges_by_touching_vertices(
+    contours_vertices: list[Sequence[hints.Point[hints.ScalarT]]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> list[Sequence[hints.Point[hints.ScalarT]]]:
+    sorted_vertices = sorted(chain.from_iterable(contours_vertices))
+    result: list[Sequence[hints.Point[hints.ScalarT]]] = []
+    for contour_vertices in contours_vertices:
+        vertices: list[hints.Point[hints.ScalarT]] = []
+        for index, end in enumerate(contour_vertices):
+            start = contour_vertices[index - 1]
+            touching_vertices = deduplicate(
+                [
+                    vertex
+                    for vertex in sorted_vertices[
+                        bisect_right(sorted_vertices, min(start, end)) : (
+                            bisect_left(sorted_vertices, max(start, end))
+                        )
+                    ]
+                    if (
+                        orienteer(start, end, vertex) is Orientation.COLLINEAR
+                    )
+                ]
+            )
+            vertices.extend(
+                touching_vertices
+                if start < end
+                else reversed(touching_vertices)
+            )
+            vertices.append(end)
+        result.append(vertices)
+    return result
+
+
 def to_angle_containing_constraint_base(
     mesh: Mesh[hints.ScalarT],
     edge: QuadEdge,
-- 
2.43.0


From 1d93f84a5868da28c17e48e07c367169bcded352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 15/21] fix: relation to polygons with border or holes of other
 orientation

---
 rene/_relating/multisegmental.py | 11 +----------
 rene/_relating/utils.py          | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 299992b..d50c6ad 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -297,16 +297,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..b38d73f 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
@@ -13,10 +15,20 @@ def polygon_to_segments(
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        _to_oriented_segments(polygon.border, Orientation.COUNTERCLOCKWISE),
         chain.from_iterable(
-            hole.segments
+            _to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
     )
+
+
+def _to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], target_orientation: Orientation, /
+) -> t.Iterable[hints.Segment[hints.ScalarT]]:
+    segments = contour.segments
+    if contour.orientation is target_orientation:
+        return segments
+    segment_cls = type(segments[0])
+    return [segment_cls(segment.end, segment.start) for segment in segments]
-- 
2.43.0


From e75cf2c4898795f3e95b72cf62ad027daa48d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 16/21] fix: asymmetric relation of multisegmentals with more
 than two segments sharing a point

---
 rene/_relating/linear.py | 81 ++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 52 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index f40447f..1e887a2 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,31 +68,12 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
-                start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
+        base_end = self.to_event_end(from_first_events[0])
+        return any(
+            self._is_angle_crossed(
+                start, base_end, self.to_event_end(event), from_second_events
             )
-            for event in from_first_events
+            for event in from_first_events[1:]
         )
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
@@ -412,6 +393,29 @@ class Operation(Generic[hints.ScalarT]):
         assert is_event_left(event)
         return self._sweep_line_data.get(self._to_sweep_line_key(event))
 
+    def _is_angle_crossed(
+        self,
+        vertex: hints.Point[hints.ScalarT],
+        first_ray_point: hints.Point[hints.ScalarT],
+        second_ray_point: hints.Point[hints.ScalarT],
+        events: Iterable[Event],
+        /,
+    ) -> bool:
+        angle_orientation = self._orienteer(
+            vertex, first_ray_point, second_ray_point
+        )
+        return not all_same(
+            is_point_in_angle(
+                self.to_event_end(event),
+                vertex,
+                first_ray_point,
+                second_ray_point,
+                angle_orientation,
+                self._orienteer,
+            )
+            for event in events
+        )
+
     def _is_left_event_from_first_operand(self, event: Event, /) -> bool:
         return (
             self._left_event_to_segment_id(event) < self.first_segments_count
@@ -477,27 +481,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +518,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From 0f74c2c8afccb838d785f15147bf4e16b581cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 17/21] fix: truth value of Delaunay triangulation without
 edges

---
 rene/_triangulation/delaunay.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/delaunay.py b/rene/_triangulation/delaunay.py
index c67afa8..4f89a91 100644
--- a/rene/_triangulation/delaunay.py
+++ b/rene/_triangulation/delaunay.py
@@ -9,7 +9,7 @@ from rene._utils import deduplicate
 from rene.enums import Orientation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
-from .quad_edge import QuadEdge, to_opposite_edge
+from .quad_edge import QuadEdge, UNDEFINED_EDGE, to_opposite_edge
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -114,3 +114,9 @@ class DelaunayTriangulation(Generic[hints.ScalarT]):
             right_side,
         )
         return self
+
+    def __bool__(self, /) -> bool:
+        result = bool(self.mesh)
+        assert result is (self.left_side != UNDEFINED_EDGE)
+        assert result is (self.right_side != UNDEFINED_EDGE)
+        return result
-- 
2.43.0


From 2b8b33ec36447aa203de9cfd7f11a98820df4837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 18/21] fix: connectivity of overlapping segments in check for
 intersections

---
 rene/_bentley_ottmann/events_registry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rene/_bentley_ottmann/events_registry.py b/rene/_bentley_ottmann/events_registry.py
index 02401da..7fe3038 100644
--- a/rene/_bentley_ottmann/events_registry.py
+++ b/rene/_bentley_ottmann/events_registry.py
@@ -399,12 +399,12 @@ class EventsRegistry(Generic[hints.ScalarT]):
     ) -> None:
         first_segment_id = self._to_left_event_segment_id(first)
         second_segment_id = self._to_left_event_segment_id(second)
-        first_min_collinear_segment_id = self._min_collinear_segments_ids[
+        first_min_collinear_segment_id = self._to_min_collinear_segment_id(
             first_segment_id
-        ]
-        second_min_collinear_segment_id = self._min_collinear_segments_ids[
+        )
+        second_min_collinear_segment_id = self._to_min_collinear_segment_id(
             second_segment_id
-        ]
+        )
         min_collinear_segment_id = min(
             first_min_collinear_segment_id, second_min_collinear_segment_id
         )
@@ -437,11 +437,8 @@ class EventsRegistry(Generic[hints.ScalarT]):
 
     def _to_min_collinear_segment_id(self, segment_id: int, /) -> int:
         candidate = segment_id
-        iterations_count = 0
         while self._min_collinear_segments_ids[candidate] != candidate:
             candidate = self._min_collinear_segments_ids[candidate]
-            iterations_count += 1
-        assert iterations_count < 3
         return candidate
 
     def _to_opposite_event(self, event: Event, /) -> Event:
-- 
2.43.0


From bcd423818ea0fdad8be3b70269736dd3b73decd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 19/21] fix: relation of geometries with parts disjoint in x
 within common bounding box

---
 rene/_relating/multipolygon.py   | 6 ++++--
 rene/_relating/multisegmental.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 95b4c7f..8e2a6c5 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -268,13 +268,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index d50c6ad..822b3f1 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
@@ -226,7 +228,8 @@ def relate_to_multisegmental(
             and second_boxes[segment_id].min_x <= min_max_x
         )
     ]
-    assert second_intersecting_segments
+    if not second_intersecting_segments:
+        return Relation.DISJOINT
     return linear.Operation.from_segments_iterables(
         first_intersecting_segments,
         second_intersecting_segments,
-- 
2.43.0


From f27caadf18c2c8f40694e5689c4d23697591e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 20/21] fix: parents of contours which start where edge of
 other one is divided

---
 rene/_clipping/shaped.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rene/_clipping/shaped.py b/rene/_clipping/shaped.py
index c14c4ac..ae34ec2 100644
--- a/rene/_clipping/shaped.py
+++ b/rene/_clipping/shaped.py
@@ -278,6 +278,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
                         below_event, below_below_event
                     )
                     self._compute_left_event_fields(event, below_event)
+                self._update_same_start_above_events_fields(event)
                 yield event
 
     @property
@@ -787,6 +788,18 @@ class Operation(ABC, Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
+    def _update_same_start_above_events_fields(self, event: Event, /) -> None:
+        # event may be a result of division by the start of events above,
+        # which are processed already using the divided one as a below event
+        event_start = self.to_event_start(event)
+        below_event, above_event = event, self._above(event)
+        while (
+            above_event is not None
+            and self.to_event_start(above_event) == event_start
+        ):
+            self._compute_left_event_fields(above_event, below_event)
+            below_event, above_event = above_event, self._above(above_event)
+
 
 class OverlapKind(enum.IntEnum):
     NONE = 0
-- 
2.43.0


From 471f9715b63dd91e26b3a3040e1cb2006b1310ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:20 +0000
Subject: [PATCH 21/21] fix: location of points in deep trapezoidations

---
 rene/_seidel/leaf.py           |  4 ++--
 rene/_seidel/node.py           |  9 +++++----
 rene/_seidel/trapezoidation.py | 27 +++++++++++++++++++--------
 rene/_seidel/x_node.py         | 18 +++++-------------
 rene/_seidel/y_node.py         | 18 +++++-------------
 5 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/rene/_seidel/leaf.py b/rene/_seidel/leaf.py
index 4fec80f..399880a 100644
--- a/rene/_seidel/leaf.py
+++ b/rene/_seidel/leaf.py
@@ -38,8 +38,8 @@ class Leaf(Node[hints.ScalarT]):
         return self
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return 0
+    def to_children_indices(self, /) -> Sequence[int]:
+        return ()
 
     trapezoid: Trapezoid
 
diff --git a/rene/_seidel/node.py b/rene/_seidel/node.py
index 9f8eae4..273a69b 100644
--- a/rene/_seidel/node.py
+++ b/rene/_seidel/node.py
@@ -21,9 +21,10 @@ class Node(ABC, Generic[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         """
-        Finds location of given point relative to the contour.
+        Finds location of given point relative to the contour
+        or child node in which the search should be continued.
         """
 
     @abstractmethod
@@ -41,7 +42,7 @@ class Node(ABC, Generic[hints.ScalarT]):
         """
 
     @abstractmethod
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
+    def to_children_indices(self, /) -> Sequence[int]:
         """
-        Returns height of the node.
+        Returns indices of child nodes.
         """
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 7d8d136..ffb3523 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -87,12 +87,26 @@ class Trapezoidation(Generic[hints.ScalarT]):
 
     @property
     def height(self, /) -> int:
-        return self._root.to_height(self._nodes)
+        result = 0
+        level = set(self._root.to_children_indices())
+        while level:
+            result += 1
+            level = {
+                child_index
+                for index in level
+                for child_index in self._nodes[index].to_children_indices()
+            }
+        return result
 
     def locate(self, point: hints.Point[hints.ScalarT], /) -> Location:
-        return self._root.locate(
-            point, self._edges, self._endpoints, self._nodes
-        )
+        cursor = self._root
+        while True:
+            candidate = cursor.locate(
+                point, self._edges, self._endpoints, self._nodes
+            )
+            if isinstance(candidate, Location):
+                return candidate
+            cursor = candidate
 
     @classmethod
     def _from_box(
@@ -138,10 +152,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
         return self
 
     def __contains__(self, point: hints.Point[hints.ScalarT]) -> bool:
-        return (
-            self._root.locate(point, self._edges, self._endpoints, self._nodes)
-            is not Location.EXTERIOR
-        )
+        return self.locate(point) is not Location.EXTERIOR
 
 
 def _add_edge(
diff --git a/rene/_seidel/x_node.py b/rene/_seidel/x_node.py
index f7985c0..9a17719 100644
--- a/rene/_seidel/x_node.py
+++ b/rene/_seidel/x_node.py
@@ -22,14 +22,12 @@ class XNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         return (
-            nodes[self.left_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.left_node_index]
             if point < endpoints[self.point_index]
             else (
-                nodes[self.right_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.right_node_index]
                 if endpoints[self.point_index] < point
                 else Location.BOUNDARY
             )
@@ -56,14 +54,8 @@ class XNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.left_node_index].to_height(nodes),
-                nodes[self.right_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.left_node_index, self.right_node_index
 
     __slots__ = 'left_node_index', 'point_index', 'right_node_index'
 
diff --git a/rene/_seidel/y_node.py b/rene/_seidel/y_node.py
index 7fdd0a6..e7f8e78 100644
--- a/rene/_seidel/y_node.py
+++ b/rene/_seidel/y_node.py
@@ -22,17 +22,15 @@ class YNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         point_orientation = edges[self.edge_index].orientation_of(
             point, endpoints
         )
         return (
-            nodes[self.above_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.above_node_index]
             if point_orientation is Orientation.COUNTERCLOCKWISE
             else (
-                nodes[self.below_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.below_node_index]
                 if point_orientation is Orientation.CLOCKWISE
                 else Location.BOUNDARY
             )
@@ -56,14 +54,8 @@ class YNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.below_node_index].to_height(nodes),
-                nodes[self.above_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.below_node_index, self.above_node_index
 
     __slots__ = 'above_node_index', 'below_node_index', 'edge_index'
 
-- 
2.43.0

