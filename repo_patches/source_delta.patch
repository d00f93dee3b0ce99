From f10274607112da8a9d5f6a4d1ccd15f0ad12de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 01/52] fix: Vector.p of a relative vector read attributes it
 does not have

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From 4dd7f9096a87dbb2061e374d6a4c96f3be0b6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 02/52] fix: transform_pts failed for vector fields, whose
 points carry no third coordinate

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..6398489 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From b51ab19eaed9eccc32f95ff5f05df11b6433430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 03/52] fix: Transform.rotate_about kept a stale cached inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 6398489..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From cf0eb6e67516ba714c0faea0890aaaab4c065b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 04/52] fix: segment_intersection missed crossings of segments
 whose boxes only touch

---
 x7/geom/geom.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 9777364..c4c0167 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -880,8 +880,9 @@ class Line(object):
 
     def segment_intersection(self, other: 'Line') -> Optional[Tuple[Point, float, float]]:
         """Return None or (intersection point, t_self, t_other)"""
-        if not self.segment_bbox().overlaps(other.segment_bbox()):
-            return None
+        s_box, o_box = self.segment_bbox(), other.segment_bbox()
+        if s_box.xh < o_box.xl or s_box.xl > o_box.xh or s_box.yh < o_box.yl or s_box.yl > o_box.yh:
+            return None     # Disjoint.  Note: segments can cross even if the boxes only touch or have no area
         if self.parallel(other):
             # Parallel
             # TODO-Could still intersect at end point or overlapping segment
@@ -894,11 +895,4 @@ class Line(object):
         t_self = other_normal.dot(other.origin-self.origin)/other_normal.dot(self.direction)
         if t_self < 0 or t_self > 1:
             return None
-        debug = True
-        if debug:
-            p_other = other.origin+other.direction*t_other
-            p_self = self.origin+self.direction*t_self
-            # print('self: %s@%s  other: %s@%s  length: %s' % (
-            #       p_self, t_self, p_other, t_other, (p_self-p_other).length()))
-            assert (p_self-p_other).length() < 1e-7
         return other.origin + other.direction*t_other, t_self, t_other
-- 
2.43.0


From e435f27992f2fbb148ab641bc52ceb364c6531ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 05/52] fix: is_simple and simplify took half and three-quarter
 turns for general rotations

---
 x7/geom/transform.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 008e1cb..1af50ed 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -11,8 +11,9 @@ NumpyArray = np.ndarray
 NumpyPoints = np.ndarray    # shape==(3, N)
 
 
-def near_zero(v):
-    return abs(v) < 1e-16
+def near_zero(v, scale=1.0):
+    """True if v is zero, allowing for rounding of values of size scale"""
+    return abs(v) <= 1e-14 * scale
 
 
 class EmptyStackError(Exception):
@@ -256,16 +257,19 @@ class Transform(Transformer):
     def is_simple(self):
         """True if this xform represents only translation, scale, and 90-degree rotations"""
         ndmat = self._mat.ndmat
+        size = np.abs(ndmat[:2, :2]).max()
 
-        return near_zero(ndmat[0][1]) and near_zero(ndmat[1][0]) or (near_zero(ndmat[0][0]) and near_zero(ndmat[1][1]))
+        return near_zero(ndmat[0][1], size) and near_zero(ndmat[1][0], size) or \
+            (near_zero(ndmat[0][0], size) and near_zero(ndmat[1][1], size))
 
     def simplify(self) -> Tuple['Transform', 'Transform']:
         """Decompose this transformation into translation+90-degree rotation and scale/skew/rotate matrix"""
         a, b, c, d, e, f = self.as_6tuple()
-        a = 0 if near_zero(a) else a
-        b = 0 if near_zero(b) else b
-        d = 0 if near_zero(d) else d
-        e = 0 if near_zero(e) else e
+        size = max(abs(a), abs(b), abs(d), abs(e))
+        a = 0 if near_zero(a, size) else a
+        b = 0 if near_zero(b, size) else b
+        d = 0 if near_zero(d, size) else d
+        e = 0 if near_zero(e, size) else e
         if self.is_simple():
             return Transform((a, b, c, d, e, f)), Transform()
         else:
-- 
2.43.0


From 6798dcd712c9aa64e7024e452fbf9a6a984c99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 06/52] fix: add_one could split the missing last-to-first
 segment of an open curve

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..3f63f01 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -493,6 +493,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed:
+            dists.pop()     # There is no segment from the last point back to the first
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From fb5566ab447b5d33ee61ccd0100930b9cbf5240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 07/52] fix: bez_split (and add_one) turned sharp end points
 into smooth ones

---
 x7/geom/bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..5fdbba0 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -636,6 +636,10 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     def mid(p: BasePoint, q: BasePoint):
         return p + t*(q-p)
 
+    def end_kind(kind):
+        # Splitting shortens just one handle, so very-smooth (equal handles) does not hold any more
+        return 'smooth' if kind == 'very-smooth' else kind
+
     a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
     ab = mid(a, b)
     bc = mid(b, c)
@@ -644,9 +648,9 @@ def bez_split(cp1: ControlPoint, cp2: ControlPoint, t=0.5)\
     bcd = mid(bc, cd)
     abcd = mid(abc, bcd)
 
-    left = ControlPoint(a, cp1.dl, ab-a)
+    left = ControlPoint(a, cp1.dl, ab-a, end_kind(cp1.kind))
     middle = ControlPoint(abcd, abc-abcd, bcd-abcd)
-    right = ControlPoint(d, cd-d, cp2.dr)
+    right = ControlPoint(d, cd-d, cp2.dr, end_kind(cp2.kind))
 
     return left, middle, right
 
-- 
2.43.0


From 31f0b6221d88f7f8a8d97d4aec66a0743cf39b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 08/52] fix: bez_self_intersect altered the control points
 passed in

---
 x7/geom/bezier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 5fdbba0..9f2052b 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -348,6 +348,9 @@ class CpBool(object):
 def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[ControlPoint]]:  # noqa: C901 (complexity)
     """Return list of replacement curves or [] if no self intersections"""
 
+    # The handles of the control points are updated below, so work on copies
+    orig_cps = [cp.copy() for cp in orig_cps]
+
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
     for cpa, cpb in iter_rotate(orig_cps):
-- 
2.43.0


From a6c84fcfed8521c09d8ec54b6fc48653015648c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 09/52] fix: bez_self_intersect missed loops of a segment away
 from its middle

---
 x7/geom/bezier.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 9f2052b..11540ee 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -345,6 +345,17 @@ class CpBool(object):
             print('\n'.join(['  cpbs: ['] + ['    %s,' % cpb for cpb in cpbs] + [']']))
 
 
+def bez_loop_middle(cp1: ControlPoint, cp2: ControlPoint) -> float:
+    """Return the t-value half way between the two t-values at which a looping curve meets itself, if within the curve"""
+    # Curve is a*t^3 + b*t^2 + c*t + d, so it meets itself at t0 != t1 if a*(t0^2+t0*t1+t1^2) + b*(t0+t1) + c == 0
+    a = (cp2.c - cp1.c) + 3*(cp1.r - cp2.l)
+    b = 3*((cp1.c - cp1.r) + (cp2.l - cp1.r))
+    c = 3*cp1.dr
+    a_cross_b = a.cross(b)
+    t = c.cross(a) / a_cross_b / 2 if a_cross_b else 0.5
+    return t if 0 < t < 1 else 0.5
+
+
 def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[ControlPoint]]:  # noqa: C901 (complexity)
     """Return list of replacement curves or [] if no self intersections"""
 
@@ -354,7 +365,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
     for cpa, cpb in iter_rotate(orig_cps):
-        left, middle, right = bez_split(cpa, cpb)
+        left, middle, right = bez_split(cpa, cpb, bez_loop_middle(cpa, cpb))
         intersection = bez_intersect_new(left, middle, middle, right)
         if intersection:
             # This segment self-intersects, so split it before adding to all_curves
-- 
2.43.0


From e47277f8029b84963a7892093275644299403be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 10/52] fix: transforming a rounded rectangle by unequal scales
 drew the wrong corners

---
 x7/geom/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3f63f01..4233565 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -759,8 +759,14 @@ class ElemRectangleRounded(ElemP1P2):
 
     def transform(self, matrix: Transform):
         """Return a copy of this shape transformed by matrix.  .transform(identity) is like .copy()"""
-        rotate, (p1, p2, p1r) = self.transform_pts(matrix, [self.p1, self.p2, self.p1+Vector(self.radius, 0)])
-        radius = (p1r-p1).length()
+        corners = [self.p1, self.p2, self.p1+Vector(self.radius, 0), self.p1+Vector(0, self.radius)]
+        rotate, (p1, p2, p1rx, p1ry) = self.transform_pts(matrix, corners)
+        radius = (p1rx-p1).length()
+        if not math.isclose(radius, (p1ry-p1).length(), rel_tol=1e-9, abs_tol=1e-9):
+            # Unequal x & y scales: a single radius can't describe the corners, so leave the scaling to xform
+            xform = matrix.copy().compose(self.xform)
+            return ElemRectangleRounded(
+                self.name, self.penbrush, xform=xform, p1=self.p1, p2=self.p2, radius=self.radius)
         return ElemRectangleRounded(self.name, self.penbrush, xform=rotate, p1=p1, p2=p2, radius=radius)
 
     def make_control_points(self) -> List[ControlPoint]:
-- 
2.43.0


From 398cdaeee11753878f034be58a9beca3e80d15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 11/52] fix: the box of a shape with holes ignored its
 outside's transform and failed without holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 4233565..c48f082 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1099,9 +1099,9 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
-        if debug:
+        if debug and self.inside:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-- 
2.43.0


From 4922d709ce324ba1ebcfbc91a48260eb431cf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 12/52] fix: a filled shape with holes drew the edges of a hole
 once per path of that hole

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index c48f082..a9fb4db 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1073,8 +1073,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From 52a3793fa6a5b1d9a76dd3e75e757d1a1fea43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 13/52] fix: copies of curves, rectangles and ellipses shared
 their transform with the original

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a9fb4db..80da478 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -582,7 +582,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -748,7 +748,8 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(
+            self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 55e32bbf36490f80c2c998fb7e6c2274a1206b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 14/52] fix: a restored group shared its transform with the
 copy it was restored from

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 80da478..9ce9047 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -909,7 +909,7 @@ class Group(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
-- 
2.43.0


From 646c3bc309fb3f3940aeb3ff402309b9e840207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 15/52] fix: restoring a shape with holes kept its edited holes
 and shared the copy's transform

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 9ce9047..1e58c9f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1121,9 +1121,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 6c66743455db49200ac0f8230047a5d8670fea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 16/52] fix: the dump of a shape with holes could not be
 executed

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1e58c9f..525ada2 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1144,12 +1144,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=')
+        with context:
+            self.outside.dump(context)
+        context.append(')')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From d68f0883f84d4d0e12037d0f8e3d2a1edf490544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 17/52] fix: dumping a group sorted its elements and so changed
 the drawing order

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 525ada2..aa8cd12 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -950,7 +950,7 @@ class Group(Elem):
         context = context or DumpContext()
         self.dump_elem(context, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for elem in self.elems.values():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From 3a149f0cea9d1bb0ce7fc11da953672c34a05f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 18/52] fix: dumping a group lost its visibility and points

---
 x7/geom/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index aa8cd12..3522869 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -948,7 +948,12 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
             for elem in self.elems.values():
                 elem.dump(context)
-- 
2.43.0


From ed3f6027ab051d40342a5cd8d9ce3943362f3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 19/52] fix: offset moved very sharp corners the wrong way when
 limiting their displacement

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3522869..358b997 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From cd13a3d428e445f694e1e798559329b35b3232f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 20/52] fix: Group.replace moved the replaced element to the
 end, or lost it when refused

---
 x7/geom/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 358b997..ce8307a 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1004,11 +1004,14 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
+                if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
-                self.add(replacement.name, replacement)
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                items = list(self.elems.items())
+                self.elems.clear()
+                self.elems.update((replacement.name, replacement) if n == name else (n, it) for n, it in items)
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
-- 
2.43.0


From 16882de19e3e085a15e34ec7d4e6e64d04cd4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 21/52] fix: Group.replace failed on models with a shape with
 holes

---
 x7/geom/model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ce8307a..332374b 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1199,8 +1199,20 @@ class ElemWithHoles(Elem):
 
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
-        unused(elem, replacement)
-        raise NotImplementedError
+
+        count = 0
+        if self.outside == elem:
+            self.outside = replacement
+            count += 1
+        elif hasattr(self.outside, 'replace'):
+            count += self.outside.replace(elem, replacement)
+        for idx, e in enumerate(self.inside):
+            if e == elem:
+                self.inside[idx] = replacement
+                count += 1
+            elif hasattr(e, 'replace'):
+                count += e.replace(elem, replacement)
+        return count
 
 
 class GroupBuilder(object):
-- 
2.43.0


From 1b6a5a508b70982cd1c0bc043eed46b636bf5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 22/52] fix: iterating a shape with holes gave names with empty
 parts

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 332374b..63e64d8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1167,7 +1167,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From 948d6d4ba04e97a80c07355ba1f18b78ae842330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 23/52] fix: periodic timing functions multiplied the phase by
 the time instead of adding it

---
 x7/geom/anim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..76e3fa0 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,8 +126,8 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
-            return trig_func(t) * scale + shift
+            theta = tau * frequency * t + offset
+            return trig_func(theta) * scale + shift
 
         return func
 
@@ -148,8 +148,8 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
-            return sin(t) * scale + shift, cos(t) * scale + shift
+            theta = tau * frequency * t + offset
+            return sin(theta) * scale + shift, cos(theta) * scale + shift
 
         return func
 
-- 
2.43.0


From d3ee43e358739943626539788b23a6de475386e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 24/52] fix: Morph added control points to the source and
 target curves themselves

---
 x7/geom/anim.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 76e3fa0..0d35cf3 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -293,14 +293,16 @@ class Morph(Animation):
     def __init__(self, model: Group, source: ElemCurve, target: ElemCurve, t_func: Callable, force=True):
         super().__init__(Point(0, 0))
         self.model = model
-        if force:
-            if len(source.control_points) != len(target.control_points):
-                print('Force: source=%d target=%d' % (len(source.control_points), len(target.control_points)))
+        self.orig = source
+        if force and len(source.control_points) != len(target.control_points):
+            print('Force: source=%d target=%d' % (len(source.control_points), len(target.control_points)))
+            # Add points to copies only, source and target could also be in use elsewhere
+            source, target = source.copy(), target.copy()
             while len(source.control_points) < len(target.control_points):
                 source.add_one()
             while len(target.control_points) < len(source.control_points):
                 target.add_one()
-        self.orig = source
+        self.source = source
         self.morph = source.fixed()
         self.target = target
         self.t_func = t_func
@@ -310,16 +312,16 @@ class Morph(Animation):
             raise MorphError('Cannot find source in model')
 
     def validate(self):
-        if len(self.orig.control_points) != len(self.target.control_points):
+        if len(self.source.control_points) != len(self.target.control_points):
             raise MorphError('%s.#cp=%d %s.#cp=%d' % (
-                'orig', len(self.orig.control_points),
+                'orig', len(self.source.control_points),
                 'target', len(self.target.control_points)))
 
     def update(self, t):
         t = self.t_func(t)
 
         morph_cp = self.morph.control_points
-        orig_cp = self.orig.control_points
+        orig_cp = self.source.control_points
         target_cp = self.target.control_points
 
         def pts(cp):
-- 
2.43.0


From c797c6e84f1a99aefb61efed438476350aee14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 25/52] fix: MorphMultiStep added control points to and rotated
 the target curves themselves

---
 x7/geom/anim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 0d35cf3..b896c15 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -350,7 +350,8 @@ class MorphMultiStep(Animation):
         super().__init__(Point(0, 0))
         self.model = model
         self.orig = source
-        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
+        # Use copies, as the curves could also be in use elsewhere
+        all_steps, all_curves = zip(*([(0.0, source.copy())] + [(step, c.copy()) for step, c in targets]))
         self.all_curves: List[ElemCurve] = all_curves
         self.all_steps: List[float] = all_steps
         max_len = max(len(c.control_points) for c in self.all_curves)
-- 
2.43.0


From aa54be5ef4440581b8b45a341d30bd364cc467ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:15 +0000
Subject: [PATCH 26/52] fix: MorphMultiStep changed the shape of open curves by
 rotating their points

---
 x7/geom/anim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index b896c15..598d8a9 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -360,7 +360,7 @@ class MorphMultiStep(Animation):
                 c.add_one()
             # TODO-make sure points are CCW
             # Rotate the so that lower left is 0
-            rotate = force
+            rotate = force and c.closed
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From 6040a19de055e72a1f0c19812606751d08c880ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 27/52] fix: restoring a morph also replaced other curves that
 happened to look the same

---
 x7/geom/anim.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 598d8a9..b753ecc 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -289,6 +289,17 @@ class MorphError(Exception):
     pass
 
 
+def put_back(model: Group, morph: ElemCurve, orig: ElemCurve):
+    """Put the original curve of a morph back into model"""
+    # replace() looks for equal elements, so make sure that nothing else equals morph, whatever its current shape
+    name = morph.name
+    morph.name = '%s#morph%d' % (name, id(morph))
+    try:
+        model.replace(morph, orig)
+    finally:
+        morph.name = name
+
+
 class Morph(Animation):
     def __init__(self, model: Group, source: ElemCurve, target: ElemCurve, t_func: Callable, force=True):
         super().__init__(Point(0, 0))
@@ -341,7 +352,7 @@ class Morph(Animation):
                 m.setxy(*(o + t * (tgt - o)).xy())
 
     def restore(self):
-        self.model.replace(self.morph, self.orig)
+        put_back(self.model, self.morph, self.orig)
 
 
 class MorphMultiStep(Animation):
@@ -411,7 +422,7 @@ class MorphMultiStep(Animation):
                 morph_pt.setxy(*(low_pt + t * (high_pt - low_pt)).xy())
 
     def restore(self):
-        self.model.replace(self.morph, self.orig)
+        put_back(self.model, self.morph, self.orig)
 
 
 # noinspection DuplicatedCode
-- 
2.43.0


From 67dc1255fe8ca398c1fd8348fb2eff9862402707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 28/52] fix: SimpleAnimation.animate added every frame twice

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From a18e28a8c76eb32b09f43753914af89f6130f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 29/52] fix: SimpleAnimation drew outside the image unless the
 drawing space was centered on y=0

---
 x7/geom/anim_simple.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..9e7f8b2 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,8 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf = Transform().scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        xf.scale(1, -1).translate(0, self.image_size.y)
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From e58ebb8041b76a3ccfce6dd30ec772b5ecadab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 30/52] fix: shapes without a pen were outlined in white

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 63e64d8..2638bf0 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 9825aa257776e209cbb25cb1bc1cb3f8e57a397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 31/52] fix: palettes for GIF output could not be built with
 current Pillow

---
 x7/geom/anim.py      |  8 +++-----
 x7/geom/imagehelp.py | 18 +++++++-----------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index b753ecc..f77268e 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -442,8 +442,7 @@ def rgb_to_transparent(im, colors=256, palette_image=None, two_color_flip=False)
             # A bit of laziness.  Turns out for white images, the ADAPTIVE palette is [almost-white, black],
             # so we can turn it into [black, white] fairly easily.
             im = im.remap_palette([1, 0])  # Rewrite the image with 0 as black and 1 as white
-            im.palette.palette = b'\xFF' * 768  # Now, make the palette all white
-            im.palette.getcolor((0, 0, 0))  # Except for first entry as black
+            im.putpalette(b'\x00' * 3 + b'\xFF' * 765)  # Now, make the palette all white, except for first entry as black
 
     im.info['transparency'] = im.getpixel((0, 0))  # Assume upper-left pixel should be transparent
 
@@ -542,9 +541,8 @@ class Builder(object):
             print('make_palette: found %d colors' % len(colors))
         all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
 
-        im.palette.colors = {}  # Start over on list of colors
-        for count, color in all_colors[:256]:
-            im.palette.getcolor(color)
+        # Start over on list of colors
+        im.putpalette([part for count, color in all_colors[:256] for part in color])
         im.load()  # Force palette to be loaded into actual image
         if debug:
             im.show()
diff --git a/x7/geom/imagehelp.py b/x7/geom/imagehelp.py
index c4836d4..0ef6b82 100644
--- a/x7/geom/imagehelp.py
+++ b/x7/geom/imagehelp.py
@@ -140,8 +140,7 @@ def rgb_to_transparent(im, colors=256, palette_image=None):
         # A bit of laziness.  Turns out for white images, the ADAPTIVE palette is [almost-white, black],
         # so we can turn it into [black, white] fairly easily.
         im = im.remap_palette([1, 0])  # Rewrite the image with 0 as black and 1 as white
-        im.palette.palette = b'\xFF' * 768  # Now, make the palette all white
-        im.palette.getcolor((0, 0, 0))  # Except for first entry as black
+        im.putpalette(b'\x00' * 3 + b'\xFF' * 765)  # Now, make the palette all white, except for first entry as black
 
     im.info['transparency'] = im.getpixel((0, 0))  # Assume upper-left pixel should be transparent
 
@@ -151,16 +150,15 @@ def rgb_to_transparent(im, colors=256, palette_image=None):
 def palette_image(empty_image=False):
     """Return a 16-place palette image"""
     im = Image.new('P', (1024, 64))
-    pal: ImagePalette.ImagePalette = im.palette
-    pal.palette = b'\x00' * 768
-    pal.getcolor((0, 0, 0))
-    pal.getcolor((255, 255, 255))
+    colors = [(0, 0, 0), (255, 255, 255)]
     if not empty_image:
         for c in range(256):
             ox = c * 4
             im.paste(c, (ox, 0, ox + 4, 64))
-            if c > len(pal.colors):
-                pal.getcolor((c, (c + 128) % 256, (500 - c) % 256))
+            if c > len(colors):
+                colors.append((c, (c + 128) % 256, (500 - c) % 256))
+    colors += [(0, 0, 0)] * (256 - len(colors))
+    im.putpalette([part for color in colors for part in color])
     im.load()
     return im
 
@@ -181,7 +179,6 @@ def test_all():
 def test_palette():
     im = palette_image()
     print(len(im.palette.colors))
-    im.palette.colors = {}
     # im.show()
     unmapped: Image.Image = Image.open('/tmp/kltv_unmapped.png')
     colors = {}
@@ -192,8 +189,7 @@ def test_palette():
     all_colors = list(reversed(sorted([(v, k) for k, v in colors.items()])))
     for idx, (count, color) in enumerate(all_colors[:10]):
         print('%3d: %6d %s' % (idx, count, color))
-    for idx, (count, color) in enumerate(all_colors[:256]):
-        im.palette.getcolor(color)
+    im.putpalette([part for count, color in all_colors[:256] for part in color])
     im.show()
 
 
-- 
2.43.0


From 5a35f5f2cdb7e8e9dda48fe940e99a86e26c1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 32/52] fix: Builder.max_bbox failed if nothing was drawn in
 some frame

---
 x7/geom/anim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f77268e..dc0611c 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -478,9 +478,12 @@ class Builder(object):
 
     def max_bbox(self, images=None):
         images = images or self.images
-        bb = images[0].getbbox()
-        for im in images[1:]:
-            bb = bbox_max(bb, im.getbbox())
+        bb = None
+        for im in images:
+            im_bb = im.getbbox()    # None if nothing was drawn
+            if im_bb:
+                bb = bbox_max(bb, im_bb) if bb else im_bb
+        bb = bb or (0, 0) + images[0].size
         print('BBox max: %s %s over %d images' % (images[0].size, bb, len(images)))
         return bb
 
-- 
2.43.0


From f1723ee600b145ed0fd8133610d2cc411900887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 33/52] fix: Builder.scaled failed for scale factors that are
 not integers

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index dc0611c..4f919ea 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -522,8 +522,8 @@ class Builder(object):
             scaled = images
         else:
             x, y = images[0].size
-            x_scaled = x // scale
-            y_scaled = y // scale
+            x_scaled = int(x // scale)
+            y_scaled = int(y // scale)
             scaled = [self.resize_for_gif(im, x_scaled, y_scaled) for im in images]
         return scaled
 
-- 
2.43.0


From 8c3678cbd2ca64a4e22c79d606f34c0c83c07df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:40 +0000
Subject: [PATCH 34/52] fix: matching points, vectors and control points
 ignored places and delta

---
 x7/geom/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..9d33cbc 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From 63e5d2ff791664bcce4e32d90176469f96d3de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 35/52] fix: explaining a mismatch of control points failed on
 their kind

---
 x7/geom/testing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 9d33cbc..31dd73e 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -102,11 +102,8 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
-        vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-        vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
-            return True, None
-        return False, None
+        close: bool = new_data.close(old_data)
+        return close, None
 
 
 class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
-- 
2.43.0


From c2be7159a8a69ca2d58c944324f5297a934f091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 36/52] fix: pickled relative points and vectors could not be
 loaded

---
 x7/geom/testing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 31dd73e..d308200 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -34,8 +34,9 @@ class PicklerExtensionGeom(support.PicklerExtension):
         meths = dict()
         for primitive in self.primitives:
             meths[primitive.__name__] = primitive
-        for elem in all_subclasses(Elem):
-            meths[elem.__name__] = elem
+        for klass in (Elem, BasePoint, Vector):     # including relative points and vectors, as used in other values
+            for subclass in all_subclasses(klass):
+                meths[subclass.__name__] = subclass
         return meths
 
     def do_pickle(self, data, prefix: str):
-- 
2.43.0


From 014d6850c89027eeffe5523147c6b1169b8abb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 37/52] fix: a polygon with neither fill nor outline was
 outlined in PIL's default color

---
 x7/geom/drawing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 4724383..da920e2 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -140,6 +140,8 @@ class DrawingContext(object):
             :param fill: color name or None for no fill
             :param outline: color name or None for no outline
         """
+        if fill is None and outline is None:
+            return      # nothing to draw, PIL would use its default color for the outline
         pts = self.matrix.transform_pts(points, True)
         self.draw.polygon(pts, fill=fill, outline=outline)
 
-- 
2.43.0


From 3cfc9884467299c54202d9603585cfc14f0f3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 38/52] fix: hiding a group builder did not hide the group it
 builds

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2638bf0..666133f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1338,6 +1338,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 97ea0f9707d43cae1e5d53e4fb43d505dc74cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 39/52] fix: showing control points failed, the squares were
 drawn from the wrong corner

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 666133f..36fa602 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -300,9 +300,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From 7b3778c7383196493db0c62b676624c380e408a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 40/52] fix: drawing an open curve of a single point failed

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 36fa602..2db13da 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -242,6 +242,8 @@ class Elem(ABC):
 
         for path in self.paths(draw):
             p = path.points
+            if not len(p):
+                continue        # Nothing to draw, e.g. an open curve with a single point
             do_fill = path.penbrush.filled
             do_outline = path.penbrush.stroked
             if draw.prod and do_outline:
-- 
2.43.0


From d88bc07337bd2a0250df849de4765ed8870e05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 41/52] fix: copying, restoring or transforming a closed group
 lost its closedness

---
 x7/geom/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2db13da..541624b 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -905,19 +905,20 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, closed=self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
         self.hidden = other.hidden
+        self.closed = other.closed
         self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), closed=self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From 092993734fb86903a63146f6931f5bc8f43f04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 42/52] fix: a refused restore of a curve had already replaced
 its name, style and transform

---
 x7/geom/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 541624b..ca2d7c3 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -388,13 +388,12 @@ class ElemCurve(Elem):
 
     def restore(self, other: 'ElemCurve'):
         """Restore self from copy in other"""
-        super().restore(other)
-        if len(self.control_points) == len(other.control_points):
-            for cp, ocp in zip(self.control_points, other.control_points):
-                cp.restore(ocp)
-        else:
+        if len(self.control_points) != len(other.control_points):
             msg = 'ElemCurve.restore: self=%d other=%d' % (len(self.control_points), len(other.control_points))
             raise GeomInternalError(msg)
+        super().restore(other)
+        for cp, ocp in zip(self.control_points, other.control_points):
+            cp.restore(ocp)
 
     def control_points_transformed(self, matrix) -> List[ControlPoint]:
         return [cp.transform(matrix) for cp in self.control_points]
-- 
2.43.0


From a1f64cf26792ac03577f3ddf6d87eb54f4770fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 43/52] fix: an iteration over a group that was stopped left
 the given transform changed

---
 x7/geom/model.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ca2d7c3..4143243 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -966,13 +966,9 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push().compose(self.xform):
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From ed0d14d097042beb81f4a85f01c3fb1109cb16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 44/52] fix: a refused replacement had already been done in
 other groups

---
 x7/geom/model.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 4143243..5c414e8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -995,18 +995,30 @@ class Group(Elem):
         else:
             return item
 
+    def check_replace(self, elem: Elem, replacement):
+        """Raise ValueError if .replace() cannot be done everywhere in the model"""
+
+        names = []
+        for name, e in self.elems.items():
+            if e == elem:
+                names.append(name)
+            elif hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+        if names:
+            if len(names) > 1 or (names != [replacement.name] and replacement.name in self.elems):
+                raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                    replacement.name, self.name))
+            if '.' in replacement.name:
+                raise ValueError('name may not contain ".": %r' % replacement.name)
+
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self.check_replace(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                if replacement.name != name and replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                if '.' in replacement.name:
-                    raise ValueError('name may not contain ".": %r' % replacement.name)
                 items = list(self.elems.items())
                 self.elems.clear()
                 self.elems.update((replacement.name, replacement) if n == name else (n, it) for n, it in items)
@@ -1195,6 +1207,13 @@ class ElemWithHoles(Elem):
         raise KeyError('%s: expected outside.%s or inside.{%s}, not %s' % (
             self.name, self.outside.name, ', '.join(e.name for e in self.inside), tag))
 
+    def check_replace(self, elem: Elem, replacement):
+        """Raise ValueError if .replace() cannot be done everywhere in the shape"""
+
+        for e in [self.outside] + self.inside:
+            if e != elem and hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
-- 
2.43.0


From 4d5a83d2d7f7f8a9aa80617dad9fd706e83b4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 45/52] fix: refused fits of boxes without size left the
 transform moved

---
 x7/geom/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 1af50ed..a1aded8 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -206,6 +206,8 @@ class Transform(Transformer):
 
     def scale_bbox(self, start: BBox, target: BBox, keep_aspect=False):
         """Update matrix to transform start BBox into target BBox (scale+translate)"""
+        if target.is_none:
+            raise ValueError("BBox is Empty")
         if keep_aspect:
             # Retain aspect ratio and center transform
             scale = min(target.width / start.width, target.height / start.height)
@@ -215,8 +217,9 @@ class Transform(Transformer):
             h_extra = target.height - start.height*scale
             self.translate(target.xl + w_extra/2, target.yl + h_extra/2)
         else:
+            scale_x, scale_y = target.width / start.width, target.height / start.height
             self.translate(-start.xl, -start.yl)
-            self.scale(target.width / start.width, target.height / start.height)
+            self.scale(scale_x, scale_y)
             self.translate(target.xl, target.yl)
         return self
 
-- 
2.43.0


From 1eab1294b59e9372b17a8c6542e06d22a00368ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 46/52] fix: find intersections of curves of any size and
 position

---
 x7/geom/bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 11540ee..bb7f553 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -183,8 +183,12 @@ def bez_intersect_new(
     """
     curve_a = bz_curve(cpa1, cpa2)
     curve_b = bz_curve(cpb1, cpb2)
+    # The solver's tolerances are absolute, so have it work on curves of unit size around the origin
+    nodes = np.hstack((curve_a.nodes, curve_b.nodes))
+    low, high = nodes.min(axis=1, keepdims=True), nodes.max(axis=1, keepdims=True)
+    center, size = (low + high) / 2, (high - low).max() or 1.0
     try:
-        intersections = curve_a.intersect(curve_b)
+        intersections = BzCurve((curve_a.nodes-center)/size, 3).intersect(BzCurve((curve_b.nodes-center)/size, 3))
     except NotImplementedError as err:
         # bz.intersect will give up if there are too many "candidate" intersections
         print('WARNING: ', err)
-- 
2.43.0


From 510cbec5feca2b3c11940e7c1ecf5c7f2a1ec427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 47/52] fix: resolve self intersections of large or distant
 curves

---
 x7/geom/bezier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bb7f553..acee125 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -366,6 +366,10 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
     # The handles of the control points are updated below, so work on copies
     orig_cps = [cp.copy() for cp in orig_cps]
 
+    # Points computed in different ways differ by rounding, which grows with the size of the coordinates
+    size = max((abs(v) for cp in orig_cps for p in (cp.c, cp.l, cp.r) for v in p), default=1)
+    size = max(size, 1)
+
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
     for cpa, cpb in iter_rotate(orig_cps):
@@ -405,7 +409,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
         for t_ix, xy_ix in sorted(intersections):
             node_ix = graph.node(xy_ix, create=True)
             l, m, r = bez_split(a, b, (t_ix-t)/(1-t))
-            if (m.c-node_ix.center).length() > 1e-10:
+            if (m.c-node_ix.center).length() > 1e-10*size:
                 raise ValueError('m.c!=ix.c by %s: %s != %s' % ((m.c-node_ix.center).length(), m.c, node_ix.center))
             local_cpbs.append(CpBool(l, next_node))
             next_node = node_ix
@@ -491,7 +495,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
                     if debug:
                         print('   ', ', '.join(str(cp.c.round(2)) for cp in cps))
                     for edge in edges[1:]:
-                        eps = 1e-11
+                        eps = 1e-11*size
                         if cps[-1].c.close(edge.cps[0].c, max_delta=eps):
                             ecps = edge.cps[:]
                             if debug:
-- 
2.43.0


From 1cf6dcc7defe587307f02c87665e0882e60a8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 48/52] fix: adding a point to a closed curve of one point
 keeps its shape

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 5c414e8..031fd5e 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -501,6 +501,8 @@ class ElemCurve(Elem):
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
+        if left == right:
+            r.dr = l.dr     # A single point is at both ends of its curve
         cps[left].restore(l)
         cps[right].restore(r)
         cps.insert(right, m)
-- 
2.43.0


From 49a923e30d8ad47e61c4ad536df648773be8b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 49/52] fix: no frame for a step whose drawing fails

---
 x7/geom/anim_simple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 9e7f8b2..6d2fd1d 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -29,7 +29,8 @@ class StepContext(object):
         return self.dc
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.sa.finish_step(self.dc)
+        if exc_type is None:
+            self.sa.finish_step(self.dc)
 
 
 class SimpleAnimation(object):
-- 
2.43.0


From 4fe04a9e8c5360e6b4b5c0ddf002b82b27b085cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 50/52] fix: vector field lookups follow vx and vy being
 replaced

---
 x7/geom/vec_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..4797ad2 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -48,6 +48,7 @@ class VectorField(Transformer):
         self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
         self.interp_x = None
         self.interp_y = None
+        self.interp_for = None      # The vx, vy that are interpolated
 
     def __eq__(self, other):
         return (
@@ -64,7 +65,8 @@ class VectorField(Transformer):
 
     def interp_coords(self, pts: NumpyArray):
         """Lookup/interpolate at all pts.  Return (vx-list, vy-list)"""
-        if not self.interp_x:
+        if not self.interp_x or self.interp_for[0] is not self.vx or self.interp_for[1] is not self.vy:
+            self.interp_for = self.vx, self.vy
             coords = (self.mesh.coord_x, self.mesh.coord_y)
             rgi = scipy.interpolate.RegularGridInterpolator
             self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)
-- 
2.43.0


From 5c0ac72f6b88ec5570cc734b4d6bd1a2d4137859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 51/52] fix: normalize vector fields of tiny or huge vectors

---
 x7/geom/vec_field.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 4797ad2..13102bd 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -102,10 +102,9 @@ class VectorField(Transformer):
         plt.show()
 
     def normalized(self) -> 'VectorField':
-        mags = np.sqrt(np.add(np.multiply(self.vx, self.vx), np.multiply(self.vy, self.vy)))
-        max_mag = np.amax(mags)
-        vx = np.multiply(self.vx, 1 / max_mag)
-        vy = np.multiply(self.vy, 1 / max_mag)
+        max_mag = np.amax(np.hypot(self.vx, self.vy))
+        vx = np.divide(self.vx, max_mag)
+        vy = np.divide(self.vy, max_mag)
         return VectorField(self.mesh, vx, vy)
 
     def smoothed(self) -> 'VectorField':
-- 
2.43.0


From c396f5fc7b55ae4e6b91eaac64b8dfd9a85b1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 52/52] fix: ElemWithHoles.replace() leaves the shape as it was
 if a replacement is refused in one of its parts

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 031fd5e..331ab66 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1219,6 +1219,7 @@ class ElemWithHoles(Elem):
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self.check_replace(elem, replacement)
         count = 0
         if self.outside == elem:
             self.outside = replacement
-- 
2.43.0

