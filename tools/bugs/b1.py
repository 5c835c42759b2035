G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
BUGS = [
dict(id='c01-grow-operand', property='C01',
  edits=[(G, """        if other.xl is None:
            return self.copy()
        if self.xl is None:
            return other.copy()
        return BBox(
            min(self.xl, other.xl), min(self.yl, other.yl),
            max(self.xh, other.xh), max(self.yh, other.yh)
        )""", """        if other.xl is None:
            return self.copy()
        if self.xl is None:
            return other.copy()
        if self.xl > other.xl or self.yl > other.yl:
            # Start from the box that is further to the lower left
            self, other = other, self
        both = self if self.xl <= other.xl and self.yl <= other.yl and self.xh >= other.xh else BBox(
            min(self.xl, other.xl), min(self.yl, other.yl), max(self.xh, other.xh), self.yh)
        both.yh = max(self.yh, other.yh)
        return both""")],
  needs='a box that already spans the other one horizontally and starts below-left of it, used again after the union',
  breaks='the union of two boxes stretches one of its operands in place',
  demo="""
from x7.geom.geom import BBox
a = BBox(0, 0, 10, 2)
b = BBox(1, 1, 9, 8)
before = a.as_tuple(), b.as_tuple()
assert (a + b).as_tuple() == (0, 0, 10, 8)
assert (a.as_tuple(), b.as_tuple()) == before, (a, b)
"""),
dict(id='c02-curve-handles', property='C02',
  edits=[(B, "        return ControlPoint(self.c.fixed(), self.dl.fixed(), self.dr.fixed(), self.kind)",
             "        dl = self.dl.fixed()\n        dr = dl if self.dr == self.dl else self.dr.fixed()\n        return ControlPoint(self.c.fixed(), dl, dr, self.kind)")],
  needs='a control point whose two handles are equal (both zero, say), copied, then one handle of the copy moved in place',
  breaks='a fixed control point has one vector object serving as both of its handles',
  demo="""
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
c = ControlPoint(Point(1, 2), Vector(0, 0), Vector(0, 0))
d = c.fixed()
d.dl.setxy(5, 5)
assert d.dr.xy() == (0, 0), d
"""),
dict(id='c03-ellipse-restore', property='C03',
  edits=[(M, """        super().restore(other)
        self.p1.restore(other.p1)
        self.p2.restore(other.p2)

    def transform_pts""", """        super().restore(other)
        if self.bbox_int() != other.bbox_int():
            self.p1.restore(other.p1)
            self.p2.restore(other.p2)

    def transform_pts""")],
  needs='a rectangle or ellipse whose corners were swapped between saving and restoring',
  breaks='restoring a shape leaves its corners exchanged, so it is not what was saved',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
r = ElemRectangle('r', PenBrush('red'), Point(0, 0), Point(10, 20))
save = r.copy()
r.p1.setxy(10, 20)
r.p2.setxy(0, 0)
r.restore(save)
assert r == save, (r, save)
"""),
dict(id='c06-calc-cache', property='C06',
  edits=[(G, """        self.dx = dx
        self.dy = dy
        self.base = base

    def __repr__(self):
        return 'PointRelative""", """        self.dx = dx
        self.dy = dy
        # An offset of nothing needs no intermediate point
        self.base = base.base if isinstance(base, PointRelative) and base.dx == 0 and base.dy == 0 else base

    def __repr__(self):
        return 'PointRelative""")],
  needs='a relative point built on a relative point whose offset is zero at that moment and changed later',
  breaks='the outer point no longer follows the point it was defined from',
  demo="""
from x7.geom.geom import *
root = Point(10, 10)
mid = PointRelative(0, 0, root)
top = PointRelative(1, 1, mid)
mid.dx = 5
assert top.xy() == (16, 11), top.xy()
"""),
dict(id='c10-compose-identity', property='C10',
  edits=[(T, """        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre_dot_eq(xform._mat.ndmat)""", """        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        if not self.stack and self == Transform():
            self._mat = xform._mat
            return self
        self._mat.pre_dot_eq(xform._mat.ndmat)""")],
  needs='an identity transform whose inverse was asked for before it is rotated about a point',
  breaks='the inverse stays that of the identity',
  demo="""
from x7.geom.geom import *
from x7.geom.transform import *
t = Transform()
t.untransform(1, 1)
t.rotate_about(90, Point(3, 4))
x, y = t.untransform(*t.transform(7, 9))
assert abs(x-7) + abs(y-9) < 1e-9, (x, y)
"""),
dict(id='c11-transform-raise', property='C11',
  edits=[(M, """        with matrix.push().compose(self.xform) as xform:
            xlate, rotate = xform.simplify()
            points = [rotate.untransform_pt(xform.transform_pt(pt)) for pt in points]
            return rotate, points""", """        xform = matrix.push().compose(self.xform)
        xlate, rotate = xform.simplify()
        points = [rotate.untransform_pt(xform.transform_pt(pt)) for pt in points]
        xform.pop()
        return rotate, points""")],
  needs='transforming a rectangle by a matrix that has no inverse after its rotation part is split off',
  breaks='the failing call leaves its matrix pushed on the stack of the caller',
  demo="""
import numpy as np
from x7.geom.geom import *
from x7.geom.transform import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
r = ElemRectangle('r', PenBrush('red'), Point(0, 0), Point(10, 20))
m = Transform((1, 2, 0, 2, 4, 0))
before = m.as_6tuple()
try:
    r.transform(m)
except np.linalg.LinAlgError:
    pass
assert m.as_6tuple() == before and not m.stack, m.stack
"""),
]
