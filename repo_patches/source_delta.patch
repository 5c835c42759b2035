From c3671d5f79828b84a1377ce65ca98cbbce8a60bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 01/38] fix: Transform.rotate_about must invalidate the cached
 inverse

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From d12f71ab92a7a4b88c1ddee2a2c6896b8e62dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 02/38] fix: shape copies must not share their transform with
 the original

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..52a9ccc 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -580,7 +580,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -746,7 +746,7 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From 01de3a2a6aab704377f3a067fe20cb698f2bae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 03/38] fix: ElemWithHoles.restore must take the holes of the
 saved copy and not alias its transform

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 52a9ccc..b5c5707 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1112,9 +1112,9 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From 7139291960e550109d719a2d0fdcb8046f981d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 04/38] fix: Group.copy/transform/restore must keep closed and
 not alias the transform

---
 x7/geom/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b5c5707..1f71db8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -894,19 +894,20 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From 116079bfff302d7b006245ce6a6928ff32d474a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 05/38] fix: VectorRelative.p must be computed from the two
 points

---
 x7/geom/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..d3639b5 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -254,6 +254,10 @@ class VectorRelative(Vector):
     def y(self):
         return self.xy()[1]
 
+    @property
+    def p(self):
+        return Point(*self.xy())
+
     def setxy(self, x, y):
         raise NotImplementedError
 
-- 
2.43.0


From af58b99c79dc628bf48b5455f20135782264facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 06/38] fix: Vector - <non vector> must be a TypeError, as
 Vector + is

---
 x7/geom/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index d3639b5..0b0bf4f 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -186,7 +186,9 @@ class Vector(typing.SupportsRound):
         return NotImplemented
 
     def __sub__(self, other):
-        return other.sub_vector(self)
+        if hasattr(other, 'sub_vector'):
+            return other.sub_vector(self)
+        return NotImplemented
 
     def sub_vector(self, other) -> 'Vector':
         """returns other-self, since this is called from other.sub(this)"""
-- 
2.43.0


From 86fa0aeebdf0364436e7960cb13116c5d9516d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 07/38] fix: Transformer.transform_pts must work for
 transformers that return (x, y), as VectorField does

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From c6bed46c9444e9f430ecca0aa6af78545d41e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 08/38] fix: Animation.periodic/sin_cos must add the offset,
 not multiply time by it

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..0dc2354 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = tau * frequency * t + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = tau * frequency * t + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From 1fe1eefa33c777e1f051ea70ceb2aafaf806078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 09/38] fix: SimpleAnimation.animate must record each frame
 once

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From f3796bff170673d1282db84405e1ef30bfcccf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 10/38] fix: GroupBuilder.hide must hide the group being built

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 1f71db8..51a7efb 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1307,6 +1307,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From 366a57ec01235ae81462e8342bc28553483ebde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 11/38] fix: ElemWithHoles.bbox_int must honour the transform
 of its outside and allow no holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 51a7efb..91856e8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1092,9 +1092,9 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
-        if debug:
+        if debug and self.inside:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-- 
2.43.0


From bc960fa250a3470b48d086629e69751226f37e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 12/38] fix: ElemCurve.restore must not change the curve when
 it refuses

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 91856e8..300b142 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -386,8 +386,8 @@ class ElemCurve(Elem):
 
     def restore(self, other: 'ElemCurve'):
         """Restore self from copy in other"""
-        super().restore(other)
         if len(self.control_points) == len(other.control_points):
+            super().restore(other)
             for cp, ocp in zip(self.control_points, other.control_points):
                 cp.restore(ocp)
         else:
-- 
2.43.0


From 82dac25a8aa77e5bf169cbe77c70db9458b64492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 13/38] fix: Group.replace must not drop the element when it
 refuses the replacement

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 300b142..3a92d1a 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -991,10 +991,10 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
+                if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
+                del self.elems[name]
                 self.add(replacement.name, replacement)
                 count += 1
             elif hasattr(e, 'replace'):
-- 
2.43.0


From 42a2dbd49ded9109d50fd543a3831cb635ee43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 14/38] fix: Group.iter_elems must pop its transform even when
 the iteration is abandoned

---
 x7/geom/model.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3a92d1a..a442a0f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -951,13 +951,9 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push().compose(self.xform):
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From b90b3aa69860f39bad71aa5651ccf38528c0d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 15/38] fix: bez_self_intersect must not modify the curve it is
 given

---
 x7/geom/bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..38c5cb0 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -350,7 +350,7 @@ def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[C
 
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
-    for cpa, cpb in iter_rotate(orig_cps):
+    for cpa, cpb in iter_rotate([cp.copy() for cp in orig_cps]):     # Handles are updated below
         left, middle, right = bez_split(cpa, cpb)
         intersection = bez_intersect_new(left, middle, middle, right)
         if intersection:
-- 
2.43.0


From d9e4f254d7c6c25aae1ad06415c079f877c2cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 16/38] fix: ElemWithHoles.paths must return each hole edge
 once

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a442a0f..7c55e19 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1062,8 +1062,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From 03aa154782139a0d7852481a32ec8e1893c6b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 17/38] fix: DumpContext.output must not modify the dump

---
 x7/geom/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7c55e19..e837de6 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -62,8 +62,7 @@ class DumpContext(object):
         for var_value, var_name in sorted(self.vars.items(), key=lambda it: (it[1], it[0])):
             var_lines.append('%s = %s' % (var_name, var_value))
         var_lines.append('')
-        self.lines[0] = 'model = ' + self.lines[0]
-        return '\n'.join(var_lines + self.lines)
+        return '\n'.join(var_lines + ['model = ' + self.lines[0]] + self.lines[1:])
 
     def prefix(self):
         return '    ' * self.depth
-- 
2.43.0


From b744dfdf2ad54f4877654dc23d0ca32b34b319a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 18/38] fix: ElemCurve.add_one must only split segments that
 are part of the curve

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e837de6..af06ebb 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -492,6 +492,8 @@ class ElemCurve(Elem):
         orig_len = len(self.control_points)
         cps = self.control_points
         dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        if not self.closed and len(cps) > 1:
+            dists = dists[:-1]      # Open curves have no segment from last to first
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
-- 
2.43.0


From 24963ffd3c7bf5b9bcd9ba88e939aac6a4ab1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 19/38] fix: ControlPoint.transform must not fail when both
 handles of a smooth point coincide

---
 x7/geom/bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 38c5cb0..303895d 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -85,8 +85,9 @@ class ControlPoint(object):
                 cp.dr = (cp.dr - cp.dl) / 2
                 cp.dl = -cp.dr
             elif cp.kind == 'smooth':
-                if cp.dl or cp.dr:
-                    direction = (cp.dr - cp.dl).unit()
+                direction = cp.dr - cp.dl
+                if direction:
+                    direction = direction.unit()
                     cp.dr = cp.dr.length() * direction
                     cp.dl = -cp.dl.length() * direction
         return cp
-- 
2.43.0


From bb541affbd18d6beb863423b9ca4238606a5f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 20/38] fix: ElemCurve.add_one on a closed curve of one control
 point must update both handles

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index af06ebb..3f9588f 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -499,6 +499,8 @@ class ElemCurve(Elem):
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
+        if left == right:
+            r.dr = l.dr         # Single control point: both of its handles change
         cps[left].restore(l)
         cps[right].restore(r)
         cps.insert(right, m)
-- 
2.43.0


From 97e833c288e78f9a32baa5ef16388edc5ddf22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 21/38] fix: ElemCurve.offset_pt must keep the side of the
 offset when limiting it

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3f9588f..155b97e 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -432,7 +432,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From bc1bfbc588071ddbaf16d71e2c8938cd080ce14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 22/38] fix: ElemWithHoles.iter_elems doubled the dot in names
 below a root

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 155b97e..a8d4c2d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1147,7 +1147,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From e221de9f6774780dd938f5f9c401881c2bade67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 23/38] fix: Group.lookup could not reach the parts of a shape
 with holes

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index a8d4c2d..6dde5b8 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -976,7 +976,7 @@ class Group(Elem):
             raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
         item = self.elems[head]
         if tail:
-            if isinstance(item, Group):
+            if isinstance(item, (Group, ElemWithHoles)):
                 return item.lookup(tail)
             else:
                 raise ValueError('no sub-group found for %r' % tail)
-- 
2.43.0


From 399cf645c6bec4d7dbd0759412b9ff7e870d677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 24/38] fix: Group.dump lost hidden and the named points

---
 x7/geom/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6dde5b8..e06b0be 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -943,7 +943,12 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
             for name, elem in sorted(self.elems.items()):
                 elem.dump(context)
-- 
2.43.0


From 33cf1aa164e0be61adccd6d118287ad3f009f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 25/38] fix: Group.dump sorted the members, so a loaded model
 was drawn in another order

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index e06b0be..9c3ce11 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -950,7 +950,7 @@ class Group(Elem):
             extra['points'] = self.points
         self.dump_elem(context, **extra, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for elem in self.elems.values():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From df9608ae5df8b8abb23aa5a029a4e25e0bb1a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 26/38] fix: ElemWithHoles.dump wrote an outline that cannot be
 read back

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 9c3ce11..8df6c9d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1140,12 +1140,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=')
+        with context:
+            self.outside.dump(context)
+        context.append(')')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From f99b7dc0e85b850a831dfaae4c8eec05324a3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:35 +0000
Subject: [PATCH 27/38] fix: Group.replace dropped the element before refusing
 a dotted replacement name

---
 x7/geom/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 8df6c9d..d83fa0a 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -998,6 +998,8 @@ class Group(Elem):
                 if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
                 del self.elems[name]
                 self.add(replacement.name, replacement)
                 count += 1
-- 
2.43.0


From fe3634f8e12f721777a724bd66cbc8f93cbbce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:39 +0000
Subject: [PATCH 28/38] fix: Group.replace moved the replacement to the end of
 the drawing order

---
 x7/geom/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d83fa0a..b719d67 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1000,8 +1000,9 @@ class Group(Elem):
                         replacement.name, self.name))
                 if '.' in replacement.name:
                     raise ValueError('name may not contain ".": %r' % replacement.name)
-                del self.elems[name]
-                self.add(replacement.name, replacement)
+                # Keep the position, since that is the drawing order
+                self.elems = dict(
+                    (replacement.name, replacement) if n == name else (n, other) for n, other in self.elems.items())
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
-- 
2.43.0


From 974de2047d488b03822a4d005ca791352ead322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 29/38] fix: Transform.scale_bbox must not translate before
 refusing an empty start box

---
 x7/geom/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 008e1cb..1000331 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -214,8 +214,9 @@ class Transform(Transformer):
             h_extra = target.height - start.height*scale
             self.translate(target.xl + w_extra/2, target.yl + h_extra/2)
         else:
+            sx, sy = target.width / start.width, target.height / start.height
             self.translate(-start.xl, -start.yl)
-            self.scale(target.width / start.width, target.height / start.height)
+            self.scale(sx, sy)
             self.translate(target.xl, target.yl)
         return self
 
-- 
2.43.0


From 004119d3ffa91dafb98b205851cc4e085e774508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:03 +0000
Subject: [PATCH 30/38] fix: Group.replace must refuse before any group of the
 model is changed

---
 x7/geom/model.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b719d67..0dffff5 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -991,15 +991,11 @@ class Group(Elem):
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        self._check_replace(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                if replacement.name != name and replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                if '.' in replacement.name:
-                    raise ValueError('name may not contain ".": %r' % replacement.name)
                 # Keep the position, since that is the drawing order
                 self.elems = dict(
                     (replacement.name, replacement) if n == name else (n, other) for n, other in self.elems.items())
@@ -1008,6 +1004,20 @@ class Group(Elem):
                 count += e.replace(elem, replacement)
         return count
 
+    def _check_replace(self, elem: Elem, replacement):
+        """Refuse to replace elem anywhere in this group, before anything is changed"""
+        for name, e in self.elems.items():
+            if e == elem:
+                if replacement.name != name and replacement.name in self.elems:
+                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                        replacement.name, self.name))
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+            elif isinstance(e, Group):
+                e._check_replace(elem, replacement)
+            elif isinstance(e, ElemWithHoles):
+                e.replace(elem, replacement)        # Not implemented
+
     def add_pt(self, name, pt):
         assert name not in self.points
         assert '.' not in name
-- 
2.43.0


From d8f28d91e6754d566603b100b38dad79a2045cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:34 +0000
Subject: [PATCH 31/38] fix: drawing control points must give rectangle corners
 in the order Pillow requires

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 0dffff5..9425a16 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -299,9 +299,9 @@ class Elem(ABC):
                     draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
                     draw.draw.ellipse((cp.l - rad).xy() + (cp.l + rad).xy(), outline='red', fill='grey')
                     draw.draw.ellipse((cp.r - rad).xy() + (cp.r + rad).xy(), outline='red', fill='grey')
-                    draw.draw.rectangle((cp.c + rad).xy() + (cp.c - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp.c - rad).xy() + (cp.c + rad).xy(), outline='red', fill='grey')
                 elif isinstance(cp, BasePoint):
-                    draw.draw.rectangle((cp + rad).xy() + (cp - rad).xy(), outline='red', fill='grey')
+                    draw.draw.rectangle((cp - rad).xy() + (cp + rad).xy(), outline='red', fill='grey')
                 else:
                     raise TypeError('unknown control_path element: %r' % cp)
 
-- 
2.43.0


From fbcb5c216ae37a8f1978e7624cafc79f5b7e22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 32/38] fix: Elem.draw must not outline paths that have no pen

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 9425a16..bd9392b 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -262,7 +262,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From 47974ceeb4b4037eaa136de21772ea8adfdbb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 33/38] fix: almost-equal of points and vectors honours the
 places and delta asked for

---
 x7/geom/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..6bcf3c4 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From 5d4960b06bd199ef90d119c51dffc9cf4d9a7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 34/38] fix: almost-equal of control points honours the delta
 asked for

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 6bcf3c4..9d33cbc 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places=places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-- 
2.43.0


From c3bb57ffd09a2f66b2027f2c4ca00d6fc87efa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 35/38] fix: explaining a mismatch of nearly equal control
 points does not fail on their kind

---
 x7/geom/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 9d33cbc..d807d2f 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -104,7 +104,8 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
         vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
+        # .kind is a str and can only be equal, everything else can be close
+        if all(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):
             return True, None
         return False, None
 
-- 
2.43.0


From 2328c78db9bf8752120b9be59356a9590e3f7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 36/38] fix: saved curves with computed points or handles load
 again

---
 x7/geom/testing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index d807d2f..d0a1978 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -36,6 +36,9 @@ class PicklerExtensionGeom(support.PicklerExtension):
             meths[primitive.__name__] = primitive
         for elem in all_subclasses(Elem):
             meths[elem.__name__] = elem
+        # Control points of dumped curves can be built on other kinds of points and vectors
+        for klass in all_subclasses(BasePoint) | all_subclasses(Vector):
+            meths[klass.__name__] = klass
         return meths
 
     def do_pickle(self, data, prefix: str):
-- 
2.43.0


From dabd10e5209cf5be5fb652dfc907c65913a55d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 37/38] fix: Colors.filled was False for the colour 0

---
 x7/geom/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/colors.py b/x7/geom/colors.py
index 7b18c48..50d04b4 100644
--- a/x7/geom/colors.py
+++ b/x7/geom/colors.py
@@ -24,7 +24,7 @@ class Colors(object):
 
     @property
     def filled(self):
-        return bool(self.fill)
+        return self.fill is not None
 
     def __repr__(self):
         return 'Colors(%s, %s)' % (self.outline, self.fill)
-- 
2.43.0


From 6feb686e72ac53a9049302ec5db139ec7c058b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 38/38] fix: Pen.replace and PenBrush.replace ignored the
 colour 0

---
 x7/geom/colors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/colors.py b/x7/geom/colors.py
index 50d04b4..e647ae8 100644
--- a/x7/geom/colors.py
+++ b/x7/geom/colors.py
@@ -66,7 +66,7 @@ class Pen(object):
         return 'Pen(%r, %r)' % (self.brush.color, self.width)
 
     def replace(self, brush=None, width=None):
-        return Pen(brush or self.brush, width if width is not None else self.width)
+        return Pen(brush if brush is not None else self.brush, width if width is not None else self.width)
 
 
 class PenBrush(object):
@@ -122,11 +122,11 @@ class PenBrush(object):
         return 'PenBrush(%r, %r)' % (self.pen, self.brush)
 
     def replace(self, pen=None, width=None, brush=None):
-        if pen and width is not None:
+        if pen is not None and width is not None:
             raise ValueError("specify pen or width not both")
         if width is not None and self.pen:
             pen = Pen(self.pen.brush, width)
-        return PenBrush(pen or self.pen, brush or self.brush)
+        return PenBrush(pen if pen is not None else self.pen, brush if brush is not None else self.brush)
 
 
 class ColorsByShape(object):
-- 
2.43.0

