From db5511de0a3f78b692d5914edf5047077093fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 01/31] fix: validity of points and segments follows the
 current coordinates

isvalid was cached on first use, so a Point looked at before _empty() or
_set_coords() kept its old answer.
---
 geometry/SR_line.py  | 3 +--
 geometry/SR_point.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index 60ff6ea..a24744c 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -11,7 +11,6 @@ The endpoints are part of the SegmentLine.
 from math import degrees, sqrt, atan2, acos
 from geometry.SR_point import Point, EMPTY, distance, EPS
 from geometry import _plotting_available, plt
-from cached_property import cached_property
 import itertools
 import copy
 
@@ -67,7 +66,7 @@ class LineSegment(object):
         assert all(p.isvalid for p in endpoints)
         self._endpoints = endpoints
 
-    @cached_property
+    @property
     def isvalid(self):
         """ validity check for LineSegments """
         if not (isinstance(self.i, Point) or isinstance(self.j, Point)):
diff --git a/geometry/SR_point.py b/geometry/SR_point.py
index de9b02d..009bc8a 100644
--- a/geometry/SR_point.py
+++ b/geometry/SR_point.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 import math
-from cached_property import cached_property
 from geometry import _plotting_available, plt
 
 EMPTY = (None, None)
@@ -107,7 +106,7 @@ class Point(object):
     def distance(self, other):
         return distance(self, other)
 
-    @cached_property
+    @property
     def isvalid(self):
         """ checks for validity """
         if self._coords == EMPTY:
-- 
2.43.0


From 8aced2ae000fd49eb50feeec500aba3fa2ff2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 02/31] fix: equal polygons hash alike

PolygonLine.__hash__ hashed a generator object, i.e. its identity: the same
polygon got a new hash on every call and set operations on polygons failed.
---
 geometry/SR_polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 7bc403f..705d245 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -92,7 +92,7 @@ class PolygonLine(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((s.ij for s in self._segments))
+        return hash(tuple(s.ij for s in self._segments))
 
     @property
     def triangles(self):
-- 
2.43.0


From 9555c3aebe7db53029025c044e65ec65adb05291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 03/31] fix: StandZarge.from_dict creates a StandZarge, not a
 Mantel

---
 SR_Vessel/SR_hauptteile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index af68e05..a2cc479 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -628,7 +628,7 @@ class Mantel(Hauptteil):
     @classmethod
     def from_dict(cls, adict):
         try:
-            mantel = Mantel(
+            mantel = cls(
                 name=adict['name'],
                 pos_v=adict['pos_v'],
                 pos_h=adict['pos_h'],
-- 
2.43.0


From f3bf2416758414c0727b1b7de1c010ff96b4ecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 04/31] fix: is_on_boundary can return True

Every point is internal or external, so the first check always answered False.
---
 geometry/SR_polygon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 705d245..d60473d 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -535,8 +535,6 @@ class PolygonLine(object):
 
     def is_on_boundary(self, p=EMPTY):
         """ Tells if the point is on the Polygonline """
-        if self.is_internal_point(p=p) or self.is_external_point(p=p):
-            return False
         if p in self.point_set:
             return True
         if any([x.is_internal_point(p=p) and x.is_point_on_line(p=p) for x in self.segments]):
-- 
2.43.0


From a8f4e09fbdf4f25dd69f59dd3b336361c8e56331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 05/31] fix: is_internal_point draws its ray to a point outside
 of the bounding box

For polygons whose largest coordinates are not positive the end of the ray was
on or inside the bounding box.
---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index d60473d..48677e0 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -494,12 +494,13 @@ class PolygonLine(object):
 
         _bb = self.bounding_box()
         _x, _y = _bb[0][1], _bb[1][1]
+        _dx, _dy = 1 + _x - _bb[0][0], 1 + _y - _bb[1][0]
         _finished = False
         _inters = []
         while not _finished:
             for i in range(ctrlpkt):
                 # # old solution - a Point somewhere to the north east is taken
-                P = Point((random.uniform(_x, 500 * _x), random.uniform(_y, 30 * _y)))
+                P = Point((random.uniform(_x + 1, _x + 500 * _dx), random.uniform(_y + 1, _y + 30 * _dy)))
                 ls = LineSegment(p, P)  # from p draw line in random direction
 
                 # # new solution: a Line towards the center of gravity and then to infinity
-- 
2.43.0


From 1d823421b6b132727adf7e0719dc13fdffe27dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 06/31] fix: angle_between_lines clamps the cosine

Rounding could push the cosine of (anti)parallel segments beyond 1 and acos raised.
---
 geometry/SR_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index a24744c..e345876 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -516,7 +516,8 @@ class LineSegment(object):
         assert other.isvalid
 
         # return atan2(norm(self.cross_product(other)), self.dot_product(other))
-        _ret = degrees(acos(self.dotproduct(other) / (self.norm * other.norm)))
+        _cos = self.dotproduct(other) / (self.norm * other.norm)
+        _ret = degrees(acos(max(-1.0, min(1.0, _cos))))  # rounding errors must not leave the domain of acos
         return _ret
 
     def angle_from_start_point(self, p=EMPTY):
-- 
2.43.0


From 06f4011ba4f70ab08657e30ab3fa5c7d33f0c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 07/31] fix: opposite_direction is decided by the vectors, not
 by equality of float degrees

---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index e345876..e5832f7 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -228,7 +228,7 @@ class LineSegment(object):
         """
         assert other.isvalid
 
-        if (self.direction + 180) % 360 == other.direction:
+        if self.is_parallel(other) and self.dotproduct(other) < 0:
             return True
         else:
             return False
-- 
2.43.0


From 5282e17a09f7a04f02e9032f06db0b44433fef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 08/31] fix: overlap of touching segments is decided by the
 vectors, not by equality of float degrees

---
 geometry/SR_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/SR_line.py b/geometry/SR_line.py
index e5832f7..96af03d 100644
--- a/geometry/SR_line.py
+++ b/geometry/SR_line.py
@@ -340,7 +340,7 @@ class LineSegment(object):
             # two linesegments are created. since these are collinear, if their direction is the same: there is overlap
             l1 = LineSegment(cp, otherpoints[0])
             l2 = LineSegment(cp, otherpoints[1])
-            if l1.direction == l2.direction:  # the two segments are in the same direction and cp is common point
+            if l1.dotproduct(l2) > 0:  # the two segments are in the same direction and cp is common point
                 # print('overlapping segment')
                 return True, sorted([l1, l2], key=lambda x: x.norm)[0]
             else:
-- 
2.43.0


From d02f52cc4ada3e39cc4d0eb160f6e51e912fb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 09/31] fix: a polyline is continuous only if each segment
 starts where the previous ends

---
 geometry/SR_polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 48677e0..e56d9bb 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -338,7 +338,7 @@ class PolygonLine(object):
     def discontinuity(self):
         _ret = []
         for x, y in zip(self.segments, self.segments[1:]):
-            if not x.continuous(y):
+            if not (x.continuous(y) and x.j == y.i):
                 _ret.append(y)
         return _ret
 
@@ -347,7 +347,7 @@ class PolygonLine(object):
         """ This checks if the polyline is continuous """
         # doesn't check for validity, as continuity is necessary for validity
 
-        return all(x.continuous(y) for x, y in zip(self.segments, self.segments[1:]))
+        return all(x.continuous(y) and x.j == y.i for x, y in zip(self.segments, self.segments[1:]))
 
     def fix(self):
         """
-- 
2.43.0


From cf3e077a19ec317341e079fb5a297ca759cb15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 10/31] fix: a point appended to a purged polyline is purged
 again

Otherwise a coincident new point stays a separate object and transformations tear
the polyline apart.
---
 geometry/SR_polygon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index e56d9bb..f620e8f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -257,21 +257,23 @@ class PolygonLine(object):
     def append_point_at_end(self, p=EMPTY):
         """
         Adds a point to the end, that is, a new segment with the starting point previous endpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        The new point may coincide with an existing one, so the polyline has to be purged again
         """
         assert p.isvalid  # a Point object
 
         self._segments.append(LineSegment(self.last_point, p))
+        self.purged = False
 
     def append_point_at_beginning(self, p=EMPTY):
         """
         Adds a point to the beginning, that is, a new segment with the starting point provided here and 
         endpoint the former startpoint
-        This operation maintains the state of being purged or not, thus self.purged remains unchanged
+        The new point may coincide with an existing one, so the polyline has to be purged again
         """
         assert p.isvalid  # a Point object
 
         self._segments.insert(0, LineSegment(p, self.first_point))
+        self.purged = False
 
     def add_internal_point(self, p=EMPTY, segment=None):
         """ add a point that is for sure on the inside of the polygon """
-- 
2.43.0


From 1032aa8bb0c83cd108032125493dbedd3cf75843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 11/31] fix: orientation of concave polygons is decided by the
 signed area, not by counting turns

---
 geometry/SR_polygon.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index f620e8f..14208ac 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -467,16 +467,10 @@ class PolygonLine(object):
                 return True
 
         else:  # positive and negative values mixed
-            _ps = len([x for x in self.cps if x >= 0])
-            _ns = len([x for x in self.cps if x <= 0])
-            if _ps > _ns:
-                return False
-            elif _ps < _ns:
-                return True
-            else:
-                print(_ps)
-                print(_ns)
-                raise Exception("This shouldn't happen")
+            # the number of left and right turns tells nothing, the signed area does
+            _f, _l = self.first_point, self.last_point
+            _area = sum(s.i.x * s.j.y - s.j.x * s.i.y for s in self.segments) + _l.x * _f.y - _f.x * _l.y
+            return not _area > 0
 
     @property
     def isccw(self):
-- 
2.43.0


From 8f820f3417004ad3d120d15e487b149438924950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 12/31] fix: bounding box of polygons beyond 1e11

---
 geometry/SR_polygon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 14208ac..0aa766f 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -540,10 +540,10 @@ class PolygonLine(object):
 
     def bounding_box(self):
         """ returns a tuple of tuples: (xmin, xmax), (ymin, ymax) """
-        _xmin = 10e10
-        _xmax = -10e10
-        _ymin = 10e10
-        _ymax = -10e10
+        _xmin = float('inf')
+        _xmax = -float('inf')
+        _ymin = float('inf')
+        _ymax = -float('inf')
         for _s in self.segments:
             _xmin = min(_xmin, min([ep.x for ep in _s.ij]))
             _xmax = max(_xmax, max([ep.x for ep in _s.ij]))
-- 
2.43.0


From 212afd9656e2c30487e314a3865566e37cdfd350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 13/31] fix: order() works for polygons of more than 249
 segments

---
 geometry/SR_polygon.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 0aa766f..5907bbb 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -239,9 +239,6 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
-            if count > 500:
-                raise Exception('WTF')
-
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From dd4cfafd84f1d6cfc54a27cd51bdd7344056897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:23 +0000
Subject: [PATCH 14/31] fix: order() refuses segments that are not one ring
 instead of dropping some of them

---
 geometry/SR_polygon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 5907bbb..657075e 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -239,6 +239,10 @@ class PolygonLine(object):
             _end = _nxt.j
             _akt = _nxt
 
+        # not one ring: some of the segments were not reached (segments of zero length are dropped)
+        if any(x not in _ret and x.i != x.j for x in self._segments):
+            return False
+
         # finished ordering the polygon
         # making sure the resulting polygon is always the same: sorting the segments so that the first is the one
         # that has its i endpoint the closest to the origin
-- 
2.43.0


From fb5b11ec52731459c0b7f57178fe19e5d33d6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 15/31] fix: arc() with cw=True runs backwards from its end
 instead of jumping from the first node to the last

---
 geometry/SR_polygon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 657075e..fd062b4 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1743,7 +1743,9 @@ def arc(P=None, r=None, alpha_start=0, alpha_end=360, n=10, cw=False):
     for st in range(n+1):
         _deg = (st * degstep) % 360
         nodes.append([r * math.cos(math.radians(_deg)), r * math.sin(math.radians(_deg))])
-    pl = polygon_from_nodes(nodes=nodes, cw=cw)
+    if cw:  # an arc is open: backwards from its end
+        nodes.reverse()
+    pl = polygon_from_nodes(nodes=nodes)
     pl.rotate_about_origin(phi=alpha_start)
     if isinstance(P, Point):
         pl.move(x0=P.x, y0=P.y)
-- 
2.43.0


From f42fe0610152856a0d39498e5b31840a0d75d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 16/31] fix: a polygon group with a node of ten or more edges
 is not valid

---
 geometry/SR_polygon_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 915f40d..cf202d2 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -168,7 +168,7 @@ class PolygonGroup(object):
         #
         _al = self.as_adjacency_list(as_numbered=True)
         nd = {}
-        for n in range(10):
+        for n in range(max([10] + [len(x) + 1 for x in _al.values()])):
             nd[n] = sum([1 for x in _al.keys() if len(_al[x]) == n])
 
         if nd[0] > 0:  # has non-connected node
@@ -183,7 +183,7 @@ class PolygonGroup(object):
         elif nd[3] % 2 == 1:  # has odd number of branches
             print('has odd number of branches')
             _ret = False
-        elif sum([1 for x in range(4, 10) if nd[x] > 0]):  # has node with more than 3 edges connected
+        elif sum([1 for x in nd if x > 3 and nd[x] > 0]):  # has node with more than 3 edges connected
             print('has node with more than 3 edges connected')
             _ret = False
         else:
-- 
2.43.0


From 1a0c9372e92fdeb722da4483b5f470f548577cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 17/31] fix: walking no segments finds no polygon instead of
 failing (find_loops of a single ring)

---
 geometry/SR_polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index fd062b4..3a370e7 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1843,6 +1843,9 @@ def walk_segments(segments=(), startingpoint=None):
     The polygon doesn't have to be ordered, but needs to be closed to walk it.
     """
 
+    if not segments:  # nowhere to walk
+        return False
+
     if startingpoint is None:
         startingpoint = segments[0].i
 
-- 
2.43.0


From 24d0e0e786fa5c341e68d8eae66a00913a4f2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 18/31] fix: a ring with a branch at its last point is not a
 loop without branch (find_loops lost the other loops)

---
 geometry/SR_polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 3a370e7..9db8ed2 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1874,6 +1874,9 @@ def walk_segments(segments=(), startingpoint=None):
         segs.add(_nextsegment)
         _poly = PolygonLine(segs)
         if _poly.order() and _poly.isclosed and not _has_branch:
+            # a branch may leave from a point where the walk had just one way to go
+            if any(len([x for x in segments if p in x.ij]) > 2 for p in _poly.point_set):
+                return False
             return _poly
 
     return False
-- 
2.43.0


From 67db2f0a3d744402b72fb9c7fd34799bfafa41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 19/31] fix: find_loops orders copies of the segments so the
 loops it found before stay closed

---
 geometry/SR_polygon_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index cf202d2..0627882 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -3,6 +3,7 @@
 from geometry.SR_point import EPS
 from geometry.SR_polygon import PolygonLine, convex_hull, remove_outlier_segments, walk_segments
 from cached_property import cached_property
+import copy
 import itertools
 from geometry.SR_polygon import TRIANGULATION_ALGORITHM
 from collections import Counter
@@ -582,7 +583,7 @@ class BehalterGraph(PolygonGroup):
                     continue
 
                 # make a polygonline from the current segments and order it
-                _polygon = PolygonLine(list(p))
+                _polygon = PolygonLine(copy.deepcopy(list(p)))  # ordering may reverse segments shared with other loops
                 # if it can be ordered then its is at least a closed loop
                 if not _polygon.order():
                     print('cont: unorderable')
-- 
2.43.0


From 6ec118d41847ea3fadd7178c592f653afa77bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 20/31] fix: a Mantel is valid also if rounding makes its axis
 differ in the last digits

---
 SR_Vessel/SR_hauptteile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index a2cc479..81c2153 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point
+from geometry.SR_point import Point, EPS
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -707,7 +707,7 @@ class Mantel(Hauptteil):
         _ok = []
         _ok.append((_s[0].i.y == _s[1].j.y))  # lower points y coordinates
         _ok.append((_s[0].j.y == _s[1].i.y))  # upper points y coordinates
-        _ok.append((_s[0].i.x + _s[1].j.x) / 2 == (_s[0].j.x + _s[1].i.x) / 2)  # axis vertical
+        _ok.append(abs((_s[0].i.x + _s[1].j.x) / 2 - (_s[0].j.x + _s[1].i.x) / 2) < EPS * 1e3)  # axis vertical
         if not all(_ok):
             return False
 
-- 
2.43.0


From f4ffba7fcd0f19f8544ce790933de5a3e6e2ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 21/31] fix: raum_dict_checker no longer overlooks rooms of the
 pattern that the result does not name

---
 SR_Vessel/SR_hauptteile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 81c2153..5eb8a28 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -60,9 +60,10 @@ def raum_dict_checker(dict_to_comapare=None, basedict=None):
         for p in pair:
             _repldict[-1][p[0]] = p[1]
 
-    # converting the result dict once
+    # converting the result dict once. The rooms named in it are renamed too, so that none of them is overlooked
     _basedict = copy.deepcopy(basedict)
-    _basedict = convert(dtc=_basedict, _rs=_raums, p=_repldict[0])
+    _baseraums = list(set(itertools.chain.from_iterable(vv for v in basedict.values() for vv in v.values())))
+    _basedict = convert(dtc=_basedict, _rs=_baseraums, p={r: chr(97 + n) for n, r in enumerate(_baseraums)})
 
     # converting and checking for all pairs
     _res = []
-- 
2.43.0


From fc7da9c0ab53d5b20c8add6bb9438dde5a50684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 22/31] fix: a loop is dropped as the union of others only if
 it really is made of them, not if its area happens to be their sum

---
 geometry/SR_polygon_group.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 0627882..5b4b717 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -651,8 +651,17 @@ class BehalterGraph(PolygonGroup):
                 combs = itertools.combinations(polygons, comblen)
                 for comb in combs:
                     _all_tris = list(itertools.chain.from_iterable([x.triangles for x in comb]))
+                    # what the polygons of the comb do not share would be the segments of the polygon made of them
+                    _segs = []
+                    for s in itertools.chain.from_iterable(x.segments for x in comb):
+                        _same = [x for x in _segs if x.loose_equal(s)]
+                        if _same:
+                            _segs.remove(_same[0])
+                        else:
+                            _segs.append(s)
                     for p in polygons:
-                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS:
+                        if abs(p.area - sum([tri.area for tri in _all_tris])) < EPS and \
+                                _segs and p.loose_equal(PolygonLine(_segs)):
                             _removed_polygons.add(p)
                             polygons.remove(p)
 
-- 
2.43.0


From c3d298f05edba2e40c160c76110553e8099aed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 23/31] fix: the inner walls of a room are those of the cycles
 contained in it, each part once

---
 SR_Vessel/SR_hauptteile.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 5eb8a28..7027100 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -283,29 +283,22 @@ class Behalter(PolygonGroup):
 
                     # print('there are internal walls')
 
-                    _cycles_to_check = self.contained_cycles[c]
-                    # first, check the cycles that are overlapping (if any)
+                    # the contained cycles are grouped: those that are overlapping (if any), maybe through
+                    # further ones, are in one group
+                    _groups = [[x] for x in self.contained_cycles[c]]
+                    for k in self.overlaps_in_cycles.keys():  # k: tuple of cycles that have common segment, eg. (0, 1)
+                        _akt = [g for g in _groups if any(x in g for x in k)]
+                        if len(_akt) == 2:
+                            _groups.remove(_akt[1])
+                            _akt[0] += _akt[1]
+
                     _iw = []  # innere Wandung
-                    _visited = []
-                    for k, v in self.overlaps_in_cycles.items():  # k: tuple of cycles that have common segment, eg. (0, 1)
-                        # first run
-                        if not _visited:
+                    for g in _groups:
+                        if len(g) > 1:
                             _iw.append([])
-                            for s in k:
+                            for s in g:
                                 _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        # later runs
-                        for vindex, _v in enumerate(_visited):
-                            if any([x in _v for x in k]):  # we saw this earlier!
-                                for s in k:
-                                    _iw[vindex] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-                            else:
-                                _iw.append([])
-                                for s in k:
-                                    _iw[-1] += [x for x in sic[s] if x not in self.all_overlapping_segments]
-
-                        _visited.append(k)
-                        _cycles_to_check = [x for x in _cycles_to_check if x not in k]
+                    _cycles_to_check = [g[0] for g in _groups if len(g) == 1]
 
                     _r.cycle.append(_iw)
                     _r._innere_wandung += _iw
-- 
2.43.0


From becba44e883fe278fffea94470105df2a890ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 24/31] fix: a cycle is contained in another if it lies inside
 of it, not just inside of its convex hull

---
 geometry/SR_polygon_group.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/geometry/SR_polygon_group.py b/geometry/SR_polygon_group.py
index 5b4b717..7593602 100644
--- a/geometry/SR_polygon_group.py
+++ b/geometry/SR_polygon_group.py
@@ -415,14 +415,9 @@ class BehalterGraph(PolygonGroup):
 
             _ret[e] = []
             for z in [x for x in _cycles.keys() if x != e]:  # keys, except for "e"
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[e]])
-                _ch = sum([x.point_set for x in _cycles[e]], [])  # all points in cycle "e"
-                _convhull = convex_hull([w.xy for w in _ch])  # as tuples for the convex hull
-                # check if the points of z inside the convex hull of e are
-                # _ch = itertools.chain.from_iterable([x.ij for x in _cycles[z]])
+                # check if the points of z inside of e are. e may be concave, so its convex hull wouldn't do
                 _ch = sum([x.point_set for x in _cycles[z]], [])  # all points in cycle "z"
-                # internal points for the convex hull
-                _internals = [p for p in _ch if _convhull.is_internal_point(p)]
+                _internals = [p for p in _ch if self.cycles[e].is_internal_point(p)]
 
                 if set(_internals) == set(_ch):  # totally contained
                     _ret[e].append(z)
-- 
2.43.0


From d50d3455a20dc5a2e45e48302c7c61e9a2a41114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 25/31] fix: triangulate() no longer keeps the triangles of a
 polygon that was moved or changed since

---
 geometry/SR_polygon.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 9db8ed2..96df6fc 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -31,6 +31,7 @@ class PolygonLine(object):
         self._external_point = []
         self.purged = False
         self._triangles = set()
+        self._triangulated = None  # the coordinates the triangles were calculated for
         # self.delaunay = Delaunay2d(self)
 
     def __nonzero__(self):
@@ -105,6 +106,11 @@ class PolygonLine(object):
     def segments(self):
         return self._segments
 
+    @property
+    def _coordinates(self):
+        """ the current coordinates, to tell if the polyline changed """
+        return tuple((s.i.xy, s.j.xy) for s in self.segments)
+
     def neighbour(self, p=EMPTY):
         _segs = self.find_segment_by_point(point=p, whichend='both')
         return [x.i for x in _segs if x.i != p] + [x.j for x in _segs if x.j != p]
@@ -667,7 +673,8 @@ class PolygonLine(object):
         if algorithm == 'random':
             algorithm = random.choice(['delaunay', 'ear clipping', 'triangle'])
 
-        if not self.triangles or force:  # if previously not triangulated or is forced to recalculate
+        # if previously not triangulated, changed since then or is forced to recalculate
+        if not self.triangles or force or self._triangulated != self._coordinates:
             if algorithm is not None:
                 if algorithm == 'delaunay':
                     self.triangulate_delaunay()
@@ -677,6 +684,7 @@ class PolygonLine(object):
                     self.triangle_mesh()
                 else:
                     raise Exception('Triangulation algorithm %s unknown' % algorithm)
+                self._triangulated = self._coordinates
 
     def triangulate_delaunay(self):
         """
-- 
2.43.0


From c18763a76cc3b6096279603880e801af7e217eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 26/31] fix: area is that of the current polygon, not the one
 of the first call

---
 geometry/SR_polygon.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 96df6fc..87532fe 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -9,7 +9,6 @@ from geometry import _plotting_available, plt, PURGE
 import random
 import pprint as pp
 import collections
-from cached_property import cached_property
 
 
 TRIANGULATION_ALGORITHM = 'triangle'  # currently only triangle works
@@ -32,6 +31,7 @@ class PolygonLine(object):
         self.purged = False
         self._triangles = set()
         self._triangulated = None  # the coordinates the triangles were calculated for
+        self._area = None  # coordinates, area
         # self.delaunay = Delaunay2d(self)
 
     def __nonzero__(self):
@@ -599,11 +599,17 @@ class PolygonLine(object):
         else:
             return False
 
-    @cached_property
+    @property
     def area(self):
         """
         checks for the results of three different ways to calculate the area and yields one
         """
+        # calculated once for the current coordinates
+        if self._area is None or self._area[0] != self._coordinates:
+            self._area = (self._coordinates, self._calculate_area())
+        return self._area[1]
+
+    def _calculate_area(self):
         if len(set(self.detailled_area.values())) == 1:
             return self.detailled_area[TRIANGULATION_ALGORITHM]
 
-- 
2.43.0


From 3387c5e98bed914b37da0812bc9b9c980e9f2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 27/31] fix: a KegelKrempe is no longer refused because its
 rounded end points miss the line of the cone by less than the accuracy

---
 SR_Vessel/SR_hauptteile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 7027100..62ef933 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1162,8 +1162,9 @@ class KegelKrempe(Hauptteil):
         # checked is if this is true, in any order of ht_oben and ht_unten
         _fp = _kre_re.first_point
         _lp = _kre_re.last_point
-        _e = (x.segments[0].is_point_on_line(_fp) and x.segments[0].is_internal_point(_fp) for x in [self.kegel, self.ht_oben])
-        _z = (x.segments[0].is_point_on_line(_lp) and x.segments[0].is_internal_point(_lp) for x in [self.kegel, self.ht_oben])
+        # (on the line to within the accuracy of equal points: the coordinates of _fp and _lp are rounded)
+        _e = (x.segments[0].line_point_distance(_fp) < EPS * 1e3 and x.segments[0].is_internal_point(_fp) for x in [self.kegel, self.ht_oben])
+        _z = (x.segments[0].line_point_distance(_lp) < EPS * 1e3 and x.segments[0].is_internal_point(_lp) for x in [self.kegel, self.ht_oben])
         assert all(x or y for x, y in zip(_e, _z))
 
         # the arc on the 'left' side. This is done by copying the right side and mirroring
-- 
2.43.0


From 777556b39040ed01cd87eb66eabe911f33df6171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 28/31] fix: a KegelKrempe with r > 0 is no longer refused
 because an end of its arc misses the box of the wall by less than the
 accuracy

---
 SR_Vessel/SR_hauptteile.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SR_Vessel/SR_hauptteile.py b/SR_Vessel/SR_hauptteile.py
index 62ef933..6dfb529 100644
--- a/SR_Vessel/SR_hauptteile.py
+++ b/SR_Vessel/SR_hauptteile.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-from geometry.SR_point import Point, EPS
+from geometry.SR_point import Point, EPS, distance
 from geometry.SR_line import LineSegment, point_on_line_at_ratio
 from geometry.SR_polygon import PolygonLine, arc, intersecting_lines, simplify
 from geometry.SR_polygon_group import PolygonGroup, BehalterGraph, Graph
@@ -1162,9 +1162,11 @@ class KegelKrempe(Hauptteil):
         # checked is if this is true, in any order of ht_oben and ht_unten
         _fp = _kre_re.first_point
         _lp = _kre_re.last_point
-        # (on the line to within the accuracy of equal points: the coordinates of _fp and _lp are rounded)
-        _e = (x.segments[0].line_point_distance(_fp) < EPS * 1e3 and x.segments[0].is_internal_point(_fp) for x in [self.kegel, self.ht_oben])
-        _z = (x.segments[0].line_point_distance(_lp) < EPS * 1e3 and x.segments[0].is_internal_point(_lp) for x in [self.kegel, self.ht_oben])
+        # (to within the accuracy of equal points: the coordinates of _fp and _lp are rounded)
+        def _on_wall(s, p):
+            return s.line_point_distance(p) < EPS * 1e3 and all(distance(x, p) < s.norm + EPS * 1e3 for x in s.ij)
+        _e = (_on_wall(x.segments[0], _fp) for x in [self.kegel, self.ht_oben])
+        _z = (_on_wall(x.segments[0], _lp) for x in [self.kegel, self.ht_oben])
         assert all(x or y for x, y in zip(_e, _z))
 
         # the arc on the 'left' side. This is done by copying the right side and mirroring
-- 
2.43.0


From 6b803fd80fc88512abd1d86a1bc9d5b2efd71dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 29/31] fix: add() connects polylines that do not meet and
 leaves the added ones as they are

---
 geometry/SR_polygon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index 87532fe..ea774e3 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -1839,9 +1839,11 @@ def add(self, *other):
     assert self.isvalid and all([x.isvalid for x in other])
     assert not (self.isclosed and all([x.isclosed for x in other]))
 
-    _sum = self.segments
+    _sum = copy.deepcopy(self.segments)  # copies: self and other stay as they are
     for s in other:
-        _sum += s.segments
+        if _sum[-1].j != s.first_point:  # these points are not equal: connected by a segment
+            _sum.append(LineSegment(_sum[-1].j, s.first_point))
+        _sum += copy.deepcopy(s.segments)
 
     _ret = PolygonLine(_sum)
     _ret.purge()
-- 
2.43.0


From e936161e406ebceb78e280f80c9abd9a56980692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 30/31] fix: ordered_copy is the ordered copy, not the result
 of ordering it

---
 geometry/SR_polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/SR_polygon.py b/geometry/SR_polygon.py
index ea774e3..7274037 100644
--- a/geometry/SR_polygon.py
+++ b/geometry/SR_polygon.py
@@ -192,7 +192,8 @@ class PolygonLine(object):
     def ordered_copy(self):
         import copy
         _ = copy.deepcopy(self)
-        return _.order()
+        _.order()
+        return _
 
     def order(self):
         """
-- 
2.43.0


From ef4291bfd76850cbcb4d2136099bad0dab309c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 31/31] fix: a line that touches the sphere no longer ends in a
 NameError

---
 geometry/additional_stuff.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/geometry/additional_stuff.py b/geometry/additional_stuff.py
index 95ec420..f781a14 100644
--- a/geometry/additional_stuff.py
+++ b/geometry/additional_stuff.py
@@ -34,8 +34,6 @@ def sphere_line_intersection(l1, l2, sp, r):
         pass  # no intersections
     elif i == 0.0:
         # one intersection
-        p[0] = 1.0
-
         mu = -b / (2.0 * a)
         p1 = (l1[0] + mu * (l2[0] - l1[0]),
               l1[1] + mu * (l2[1] - l1[1]),
-- 
2.43.0

