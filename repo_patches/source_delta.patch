From 766871cc050ff4f101acbc8fea987c28edb8315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/26] fix: pick the intersection point that belongs to the
 furthest distance

The distances beyond the edge's end were filtered out of the list of
distances only, so the index of the maximum was looked up in the
unfiltered list of points.
---
 foronoi/graph/polygon.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 0d95161..fe6cca6 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -233,10 +233,9 @@ class Polygon(Subject):
         max_distance = Algebra.distance(orig, end)
 
         # Find the intersection point that is furthest away from the start
+        points = [p for p in points if Algebra.distance(orig, p) <= max_distance]
         if points:
             distances = [Algebra.distance(orig, p) for p in points]
-            distances = [i for i in distances if i <= max_distance]
-            if distances:
-                point = points[np.argmax(distances)]
+            point = points[np.argmax(distances)]
 
         return point
-- 
2.43.0


From 43d7e6e54a39f4deb35f2703dd80e8451b475ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/26] fix: finish edges with a sweep line far enough below
 the polygon

Breakpoints of unbounded edges could still be inside the polygon, so the
edge was dropped instead of clipped; edges that go straight up ended
exactly on the polygon's top, where rounding could drop them.
---
 foronoi/graph/polygon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index fe6cca6..aebe0fb 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -148,14 +148,17 @@ class Polygon(Subject):
         return resulting_edges
 
     def _finish_edge(self, edge):
+        # Distance that brings the end of every unfinished edge outside the polygon
+        margin = 4 * (self.max_x - self.min_x + self.max_y - self.min_y)
+
         # Sweep line position
-        sweep_line = self.min_y - abs(self.max_y)
+        sweep_line = self.min_y - abs(self.max_y) - margin
 
         # Start should be a breakpoint
-        start = edge.get_origin(y=sweep_line, max_y=self.max_y)
+        start = edge.get_origin(y=sweep_line, max_y=self.max_y + margin)
 
         # End should be a vertex
-        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y)
+        end = edge.twin.get_origin(y=sweep_line, max_y=self.max_y + margin)
 
         # Get point of intersection
         point = self._get_intersection_point(end, start)
-- 
2.43.0


From b58ab186988a05381244e9a271545220e8495091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 03/26] fix: treat a polygon top at y = 0 as a clipping height

---
 foronoi/nodes/breakpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index c3275ad..590562c 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -86,7 +86,7 @@ class Breakpoint:
             result.xd = (i.xd + j.xd) / 2
 
             if j.xd < i.xd:
-                result.yd = max_y or float('inf')
+                result.yd = max_y if max_y is not None else float('inf')
                 return result
 
         # Handle cases where one point's y-coordinate is the same as the sweep line
-- 
2.43.0


From cab7faa9fd7c92285dfd5f709ee389ff4b33e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 04/26] fix: order polygon vertices around a point inside the
 polygon

The middle of the extents of a convex polygon can lie outside it or on one
of its sides (a right triangle), which scrambled the border.
---
 foronoi/graph/polygon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index aebe0fb..6603e00 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -24,7 +24,10 @@ class Polygon(Subject):
         min_x = min([p.xd for p in self.points])
         max_y = max([p.yd for p in self.points])
         max_x = max([p.xd for p in self.points])
-        center = Coordinate((max_x + min_x) / 2, (max_y + min_y) / 2)
+        center = Coordinate(
+            sum([p.xd for p in self.points]) / len(self.points),
+            sum([p.yd for p in self.points]) / len(self.points)
+        )
         self.min_y, self.min_x, self.max_y, self.max_x, self.center = min_y, min_x, max_y, max_x, center
 
         self.points = self._order_points(self.points)
-- 
2.43.0


From 7871d180ac8d053bee7b167371e06d9b2f2995b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/26] fix: move all connected edges when merging coinciding
 vertices

The list was modified while iterating over it, which skipped edges.
---
 foronoi/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6c25b95..6b412a6 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -555,7 +555,7 @@ class Algorithm(Subject):
                 v2: Vertex = edge.twin.origin
 
                 # Move connected edges from v1 to v2
-                for connected in v1.connected_edges:
+                for connected in list(v1.connected_edges):
                     connected.origin = v2
                     v1.connected_edges.remove(connected)
                     v2.connected_edges.append(connected)
-- 
2.43.0


From 55079a3f651fc4d63d7a92f01d443dea117ea2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 06/26] fix: rebalance the status tree after a site at the same
 height

The early return skipped the rebalancing, so a row of sites built a chain.
---
 foronoi/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 6b412a6..32573d0 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -325,6 +325,7 @@ class Algorithm(Subject):
 
         # If the right breakpoint does not intersect, we don't need to insert circle events.
         if not breakpoint_right.does_intersect():
+            self.status_tree = Tree.balance_and_propagate(root)
             return
 
         node_a, node_b, node_c = root.left.predecessor, root.left, root.right.left
-- 
2.43.0


From 5dfccc1891a0d2169048ec1697d44ba16c386bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 07/26] fix: rebalance the status tree from the point of
 removal

Only the root was balanced after an arc was removed.
---
 foronoi/algorithm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 32573d0..5b756d7 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -485,14 +485,15 @@ class Algorithm(Subject):
         if arc_node.is_left_child():
 
             # Replace the right breakpoint by the right node
-            root = arc_node.parent.replace_leaf(arc_node.parent.right, root)
+            sibling = arc_node.parent.right
+            root = arc_node.parent.replace_leaf(sibling, root)
 
             # Mark the right breakpoint as removed and right breakpoint
             removed = arc_node.parent.data
             right = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(sibling)
 
             # Find the left breakpoint
             left_breakpoint = Breakpoint(breakpoint=(predecessor.get_value().origin, arc_node.get_value().origin))
@@ -513,14 +514,15 @@ class Algorithm(Subject):
         else:
 
             # Replace the left breakpoint by the left node
-            root = arc_node.parent.replace_leaf(arc_node.parent.left, root)
+            sibling = arc_node.parent.left
+            root = arc_node.parent.replace_leaf(sibling, root)
 
             # Mark the left breakpoint as removed
             removed = arc_node.parent.data
             left = removed
 
             # Rebalance the tree
-            root = Tree.balance_and_propagate(root)
+            root = Tree.balance_and_propagate(sibling)
 
             # Find the right breakpoint
             right_breakpoint = Breakpoint(breakpoint=(arc_node.get_value().origin, successor.get_value().origin))
-- 
2.43.0


From 26d90cd1e7b4ab012779513782e3032d4ba73db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 08/26] fix: refresh the cached height of every node on the way
 up

Rotations change the height of a subtree, so the cached heights of its
ancestors were stale when they were balanced.
---
 foronoi/tree/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 07a9a60..e12c43f 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -187,6 +187,9 @@ class Tree:
         :return: The root of the balanced tree
         """
 
+        # The subtrees may have changed height
+        node.update_height()
+
         node = Tree.balance(node)
 
         if node.parent is None:
-- 
2.43.0


From 2be7dec1f241be89f3241d5d697db1711502e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 09/26] fix: keep the tree balanced when equal keys are
 inserted

---
 foronoi/tree/tree.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index e12c43f..ccb3df9 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -119,29 +119,8 @@ class Tree:
         # Update the height of the ancestor node
         root.update_height()
 
-        # If the node is unbalanced, then try out the 4 cases
-        balance = root.balance
-        # root = Tree.balance(root)
-
-        # Case 1 - Left Left
-        if balance > 1 and node_key < root.left.get_key(**kwargs):
-            return Tree.rotate_right(root)
-
-        # Case 2 - Right Right
-        if balance < -1 and node_key > root.right.get_key(**kwargs):
-            return Tree.rotate_left(root)
-
-        # Case 3 - Left Right
-        if balance > 1 and node_key > root.left.get_key(**kwargs):
-            root.left = Tree.rotate_left(root.left)
-            return Tree.rotate_right(root)
-
-        # Case 4 - Right Left
-        if balance < -1 and node_key < root.right.get_key(**kwargs):
-            root.right = Tree.rotate_right(root.right)
-            return Tree.rotate_left(root)
-
-        return root
+        # Balance the tree
+        return Tree.balance(root)
 
     @staticmethod
     def delete(root: Node, key: int, **kwargs):
-- 
2.43.0


From ae09441068bed8be315957cc4930fe514d85ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 10/26] fix: pass the key arguments on when deleting from the
 tree

---
 foronoi/tree/tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index ccb3df9..3f2e4b8 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -128,11 +128,11 @@ class Tree:
         if root is None:
             return root
 
-        elif key < root.get_key():
-            root.left = Tree.delete(root.left, key)
+        elif key < root.get_key(**kwargs):
+            root.left = Tree.delete(root.left, key, **kwargs)
 
-        elif key > root.get_key():
-            root.right = Tree.delete(root.right, key)
+        elif key > root.get_key(**kwargs):
+            root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
             if root.left is None:
-- 
2.43.0


From c298f26f017b6001781533d51e4f0b0d57f8790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 11/26] fix: delete tree nodes with two children

Nodes have no attribute value, so this always raised an AttributeError.
---
 foronoi/tree/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index 3f2e4b8..f5d744d 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -143,7 +143,7 @@ class Tree:
 
             temp = root.right.minimum()
             root.data = temp.data
-            root.right = Tree.delete(root.right, temp.value.get_key(**kwargs))
+            root.right = Tree.delete(root.right, temp.get_key(**kwargs), **kwargs)
 
         # If the tree has only one node, simply return it
         if root is None:
-- 
2.43.0


From 7c65bc47afbec606f446d00ea24da8eb9ddbdcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 12/26] fix: detach the new root from the deleted tree node

---
 foronoi/tree/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foronoi/tree/tree.py b/foronoi/tree/tree.py
index f5d744d..87f9982 100644
--- a/foronoi/tree/tree.py
+++ b/foronoi/tree/tree.py
@@ -135,11 +135,11 @@ class Tree:
             root.right = Tree.delete(root.right, key, **kwargs)
 
         else:
-            if root.left is None:
-                return root.right
-
-            elif root.right is None:
-                return root.left
+            if root.left is None or root.right is None:
+                child = root.right if root.left is None else root.left
+                if child is not None:
+                    child.parent = root.parent
+                return child
 
             temp = root.right.minimum()
             root.data = temp.data
-- 
2.43.0


From 0f5adbd1139bfb5e056bc4d8eadf9a4e5353b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 13/26] fix: return only the edges from the bounding circle's
 finish_edges

As in Polygon; the tuple made every construction in a circle fail.
---
 foronoi/contrib/bounding_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index c04fd74..5113e57 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -98,7 +98,7 @@ class BoundingCircle(Polygon):
                 .plot_polygon() \
                 .show()
 
-        return resulting_edges, self.polygon_vertices
+        return resulting_edges
 
     def trim_edge(self, edge, twisted=False):
 
-- 
2.43.0


From e2e29a795de858f71402f3ce8b1b2d729fa46edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 14/26] fix: treat a line that misses the bounding circle as
 having no cut

Decimal.sqrt raises InvalidOperation for negative numbers, not ValueError.
---
 foronoi/contrib/bounding_circle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 5113e57..9e24866 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -1,5 +1,5 @@
 import warnings
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from foronoi import Polygon
 from foronoi.algorithm import Algorithm
@@ -197,7 +197,7 @@ class BoundingCircle(Polygon):
         a_sq_b_sq = a ** 2 + b ** 2
         try:
             big_sqrt = Decimal.sqrt(self.radius ** 2 * a_sq_b_sq - d ** 2).real
-        except ValueError:
+        except (ValueError, InvalidOperation):
             return None, None
 
         x1 = self.xd + (a * d + b * big_sqrt) / a_sq_b_sq
-- 
2.43.0


From 4a3fd12da1afbf0aac68c66dc03518bf9c5998b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 15/26] fix: list every edge clipped by a bounding circle once

An edge was listed a second time by its twin when its other end was
clipped, and edges outside the circle stayed linked to the others.
---
 foronoi/contrib/bounding_circle.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 9e24866..cb38ad4 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -55,14 +55,8 @@ class BoundingCircle(Polygon):
                     .plot_polygon()\
                     .show()
 
-            if A is None:
-                if B is None:
-                    continue
+            if not self.inside(A):
                 result = result and self.trim_edge(edge)
-            elif not self.inside(A):
-                result = result and self.trim_edge(edge)
-            if result:
-                resulting_edges.append(edge)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -73,10 +67,14 @@ class BoundingCircle(Polygon):
                     .plot_polygon() \
                     .show()
 
-            if B is None or not self.inside(B):
-                result = self.trim_edge(edge.twin)
-                if result:
-                    resulting_edges.append(edge.twin)
+            if result and not self.inside(B):
+                result = result and self.trim_edge(edge.twin)
+
+            if result:
+                resulting_edges.append(edge)
+            else:
+                edge.delete()
+                edge.twin.delete()
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
-- 
2.43.0


From 33a2284d29bb04a2fd23098aab5c678cdc6e469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 16/26] fix: clip to the bounding circle at a sweep line below
 that circle

The fixed height -1000 can lie above or inside the circle.
---
 foronoi/contrib/bounding_circle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index cb38ad4..93dd512 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -23,6 +23,7 @@ class BoundingCircle(Polygon):
         self.min_x = self.xd - 2 * self.radius
         self.max_y = self.yd + 2 * self.radius
         self.min_y = self.yd - 2 * self.radius
+        self.sweep_line = self.min_y - 8 * self.radius  # Far enough to bring unfinished edges outside the circle
         self.voronoi = Algorithm(self)  # A dummy for visualization
         self.voronoi.sweep_line = self.min_y - abs(self.max_y)
 
@@ -43,8 +44,8 @@ class BoundingCircle(Polygon):
         resulting_edges = []
         for edge in edges:
             result = True
-            A = edge.get_origin(y=-1000)
-            B = edge.twin.get_origin(y=-1000)
+            A = edge.get_origin(y=self.sweep_line)
+            B = edge.twin.get_origin(y=self.sweep_line)
 
             if DEBUG:
                 Visualizer(self.voronoi, 1) \
@@ -161,8 +162,8 @@ class BoundingCircle(Polygon):
         return is_on(A, B, C)
 
     def cut_line(self, edge):
-        A = edge.get_origin(-1000)
-        B = edge.twin.get_origin(-1000)
+        A = edge.get_origin(self.sweep_line)
+        B = edge.twin.get_origin(self.sweep_line)
         a, b, c = self.get_line(A, B)
 
         point1, point2 = self.cut_circle(a, b, c)
-- 
2.43.0


From 938a2a811d51efadc7f4b0ec32d6b0557bf1f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 17/26] fix: draw the bounding circle around its own centre

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index b8f0535..830a9bf 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -202,7 +202,7 @@ class Visualizer:
         if hasattr(self.voronoi.bounding_poly, 'radius'):
             # Draw bounding box
             self.canvas.add_patch(
-                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.xd),
+                patches.Circle((self.voronoi.bounding_poly.xd, self.voronoi.bounding_poly.yd),
                                self.voronoi.bounding_poly.radius,
                                fill=False,
                                edgecolor=Colors.BOUNDING_BOX)
-- 
2.43.0


From 9fd51ea87ca71cd2ff8c9f74d4bb9115bcafd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 18/26] fix: pass the triangles option of plot_all on as an
 option

---
 foronoi/visualization/visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 830a9bf..8cad2a3 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -185,7 +185,7 @@ class Visualizer:
         self.plot_vertices() if vertices else False
         self.plot_sites(show_labels=site_labels) if sites else False
         self.plot_outgoing_edges(scale=scale) if outgoing_edges else False
-        self.plot_event(triangles) if events else False
+        self.plot_event(triangles=triangles) if events else False
         self.plot_arcs(plot_arcs=arcs, show_labels=arc_labels) if beach_line else False
         self._set_limits()
         return self
-- 
2.43.0


From 395935dde7e74df96512812334fcf90f4c509cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 19/26] fix: do not store an observer's settings in the shared
 presets

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index bedbbc4..cb62250 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -82,20 +82,20 @@ class VoronoiObserver(Observer, ABC):
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.construction
+            settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.clipping
+            settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
             vis = Visualizer(subject, canvas_offset=self.canvas_offset)
-            settings = Presets.final
+            settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Voronoi completed\n")
-- 
2.43.0


From 997178a9f40a6ad547791b7aa8b9819e552aa915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 20/26] fix: use the figure size given to the VoronoiObserver

---
 foronoi/observers/voronoi_observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foronoi/observers/voronoi_observer.py b/foronoi/observers/voronoi_observer.py
index cb62250..4055cbe 100644
--- a/foronoi/observers/voronoi_observer.py
+++ b/foronoi/observers/voronoi_observer.py
@@ -81,20 +81,20 @@ class VoronoiObserver(Observer, ABC):
             return False
 
         if message == Message.STEP_FINISHED and self.visualize_steps:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.construction)
             settings.update(self.settings)
             assert subject.sweep_line == subject.event.yd
             result = vis.plot_all(**settings)
             plt.title(str(subject.event) + "\n")
         elif message == Message.SWEEP_FINISHED and self.visualize_before_clipping:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.clipping)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
             plt.title("Sweep finished\n")
         elif message == Message.VORONOI_FINISHED and self.visualize_result:
-            vis = Visualizer(subject, canvas_offset=self.canvas_offset)
+            vis = Visualizer(subject, canvas_offset=self.canvas_offset, figsize=self.figsize)
             settings = dict(Presets.final)
             settings.update(self.settings)
             result = vis.plot_all(**settings)
-- 
2.43.0


From 85974ba7fa9805355a925fef7423b1266a1a266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 21/26] fix: give a new child the observers that are already
 attached

---
 foronoi/observers/subject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foronoi/observers/subject.py b/foronoi/observers/subject.py
index 021ba7d..cd17ab1 100644
--- a/foronoi/observers/subject.py
+++ b/foronoi/observers/subject.py
@@ -75,6 +75,7 @@ class Subject:
         Add child
         """
         self._children.append(child)
+        self._update_children()
 
     def _update_children(self):
         """
-- 
2.43.0


From ffd2f01c97650bf8d6c7d2f2d6e919b0f21b34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 22/26] fix: drop the clip vertices of an earlier diagram from
 the polygon

---
 foronoi/contrib/bounding_circle.py | 1 +
 foronoi/graph/polygon.py           | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/foronoi/contrib/bounding_circle.py b/foronoi/contrib/bounding_circle.py
index 93dd512..dedf7c2 100644
--- a/foronoi/contrib/bounding_circle.py
+++ b/foronoi/contrib/bounding_circle.py
@@ -41,6 +41,7 @@ class BoundingCircle(Polygon):
         return (self.xd - point.xd) ** 2 + (self.yd - point.yd) ** 2 < self.radius ** 2
 
     def finish_edges(self, edges, vertices=None, points=None, event_queue=None):
+        self.polygon_vertices = []
         resulting_edges = []
         for edge in edges:
             result = True
diff --git a/foronoi/graph/polygon.py b/foronoi/graph/polygon.py
index 6603e00..ff95776 100644
--- a/foronoi/graph/polygon.py
+++ b/foronoi/graph/polygon.py
@@ -132,6 +132,9 @@ class Polygon(Subject):
         clipped_edges: list(HalfEdge)
             A list of clipped edges
         """
+        # Start from the corners, the polygon may have been used for another diagram
+        self.polygon_vertices = [Vertex(point.xd, point.yd) for point in self.points]
+
         resulting_edges = list()
         for edge in edges:
 
-- 
2.43.0


From 4bf4be3061d344e3f67e5255aeced616d3470585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 23/26] fix: start every diagram from a clean state

---
 foronoi/algorithm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/foronoi/algorithm.py b/foronoi/algorithm.py
index 5b756d7..08fe3ef 100644
--- a/foronoi/algorithm.py
+++ b/foronoi/algorithm.py
@@ -150,6 +150,15 @@ class Algorithm(Subject):
 
         points = [Point(x, y) for x, y in points]
 
+        # Forget the state of an earlier diagram
+        self.event_queue = PriorityQueue()
+        self.event = None
+        self.status_tree = None
+        self.sweep_line = float("inf")
+        self._arcs = set()
+        self.edges = list()
+        self._vertices = set()
+
         # Initialize all points
         self.initialize(points)
         index = 0
-- 
2.43.0


From d6c9792e3da1cbe5e3b70a838d82465c736db98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 24/26] fix: label the arc that is drawn

Arcs without a plot line shifted the labels to other arcs.
---
 foronoi/visualization/visualizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 8cad2a3..7806a51 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -400,6 +400,7 @@ class Visualizer:
         x = np.linspace(float(min_x), float(max_x), 1000)
 
         plot_lines = []
+        plotted_arcs = []
 
         for arc in arcs:
             plot_line = arc.get_plot(x, sweep_line)
@@ -412,6 +413,7 @@ class Visualizer:
                     self.canvas.plot(x, plot_line, linestyle="--", color=Colors.ARC)
 
                 plot_lines.append(plot_line)
+                plotted_arcs.append(arc)
 
         # Plot the bottom of all the arcs
         if len(plot_lines) > 0:
@@ -419,7 +421,7 @@ class Visualizer:
             self.canvas.plot(x, bottom, color=Colors.BEACH_LINE)
 
             if show_labels:
-                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, arcs)
+                self._plot_arc_labels(x, plot_lines, bottom, sweep_line, plotted_arcs)
 
         return self
 
-- 
2.43.0


From 379f368e1f1924159860cbbf76ae4224c4c4e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 25/26] fix: draw what was asked for when it is empty or at
 height 0

---
 foronoi/visualization/visualizer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/foronoi/visualization/visualizer.py b/foronoi/visualization/visualizer.py
index 7806a51..3ca3e3e 100644
--- a/foronoi/visualization/visualizer.py
+++ b/foronoi/visualization/visualizer.py
@@ -228,7 +228,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
 
         xs = [vertex.xd for vertex in vertices]
         ys = [vertex.yd for vertex in vertices]
@@ -254,7 +254,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        vertices = vertices or self.voronoi.vertices
+        vertices = vertices if vertices is not None else self.voronoi.vertices
         scale = Decimal(str(scale))
 
         for vertex in vertices:
@@ -300,7 +300,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        points = points or self.voronoi.sites
+        points = points if points is not None else self.voronoi.sites
 
         xs = [point.xd for point in points]
         ys = [point.yd for point in points]
@@ -335,8 +335,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._plot_edge(edge, sweep_line, show_labels, color)
             self._plot_edge(edge.twin, sweep_line, print_name=False, color=color)
@@ -360,8 +360,8 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        edges = edges or self.voronoi.edges
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        edges = edges if edges is not None else self.voronoi.edges
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
         for edge in edges:
             self._draw_line_from_edge_midpoint_to_incident_point(edge, sweep_line)
             self._draw_line_from_edge_midpoint_to_incident_point(edge.twin, sweep_line)
@@ -389,8 +389,8 @@ class Visualizer:
         self: Visualizer
 
         """
-        arcs = arcs or self.voronoi.arcs
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        arcs = arcs if arcs is not None else self.voronoi.arcs
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -449,7 +449,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        sweep_line = sweep_line or self.voronoi.sweep_line
+        sweep_line = sweep_line if sweep_line is not None else self.voronoi.sweep_line
 
         # Get axis limits
         min_x, max_x, min_y, max_y = self.min_x, self.max_x, self.min_y, self.max_y
@@ -474,7 +474,7 @@ class Visualizer:
         -------
         self: Visualizer
         """
-        event = event or self.voronoi.event
+        event = event if event is not None else self.voronoi.event
         if isinstance(event, CircleEvent):
             self._plot_circle(event, show_triangle=triangles)
 
-- 
2.43.0


From ac4f538ea97236eb6016462e7b23b8ec1ed4be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 26/26] fix: breakpoint at a site just reached: no square root
 of a rounding error

---
 foronoi/nodes/breakpoint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foronoi/nodes/breakpoint.py b/foronoi/nodes/breakpoint.py
index 590562c..23bd690 100644
--- a/foronoi/nodes/breakpoint.py
+++ b/foronoi/nodes/breakpoint.py
@@ -99,9 +99,10 @@ class Breakpoint:
             # We now need to solve for x
             # 1/u * (x**2 - 2*a*x + a**2 + b**2 - l**2) = 1/v * (x**2 - 2*c*x + c**2 + d**2 - l**2)
             # Then we let Wolfram alpha do the heavy work for us, and we put it here in the code :D
-            x = -(Decimal.sqrt(
-                v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (v - u) + l ** 2 * (
-                    u - v) ** 2) + a * v - c * u) / (u - v)
+            # (rounding can make the radicand slightly negative when one of the points is almost on the sweep line)
+            radicand = v * (a ** 2 * u - 2 * a * c * u + b ** 2 * (u - v) + c ** 2 * u) + d ** 2 * u * (
+                    v - u) + l ** 2 * (u - v) ** 2
+            x = -(Decimal.sqrt(max(radicand, Decimal(0))) + a * v - c * u) / (u - v)
             result.xd = x
 
         # We have to re-evaluate this, since the point might have been changed
-- 
2.43.0

