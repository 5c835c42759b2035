G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
BUGS = [
dict(id='c04-curve-prefix', property='C04',
  edits=[(M, "        return super().__eq__(other) and self.control_points == other.control_points",
             "        return super().__eq__(other) and all(a == b for a, b in zip(self.control_points, other.control_points))")],
  needs='two curves that agree in every attribute, one of them having extra control points at the end',
  breaks='a curve equals a longer curve that starts with the same control points',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
cps = [ControlPoint(Point(i, i * i), Vector(1, 0), Vector(0, 1)) for i in range(4)]
pb = PenBrush('black')
assert ElemCurve('c', pb, cps) == ElemCurve('c', pb, list(cps))
assert ElemCurve('c', pb, cps[:3]) != ElemCurve('c', pb, cps)
"""),
dict(id='c06-calc-cached-base', property='C06',
  edits=[(G, """        self.base = cast(PointRelative, base)
        self.scale = scale
""", """        self.base = cast(PointRelative, base)
        self.origin = base.base
        self.scale = scale
"""), (G, "        base_x, base_y = self.base.base.xy()\n        return self.scale * self.base.dx",
          "        base_x, base_y = self.origin.xy()\n        return self.scale * self.base.dx")],
  needs='a calculated point whose relative point is later attached to another base point',
  breaks='the calculated point keeps following the point that its relative point used to hang on',
  demo="""
from x7.geom.geom import *
p, q = Point(0, 0), Point(100, 50)
r = PointRelative(3, 4, p)
c = PointCalc(r, -2)
assert c.xy() == (-6, -8)
r.base = q
assert r.xy() == (103, 54)
assert c.xy() == (94, 42), c.xy()
"""),
dict(id='c07-corner-shortcut', property='C07',
  edits=[(G, "        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])",
             "        if xform.as_6tuple()[1] == 0:\n            # x does not depend on y\n            ll, hh = xform.transform_pts([self.pll, self.phh])\n            return BBox(ll, hh)\n        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])")],
  needs='a box transformed by a shear of y along x (the x row has no y term)',
  breaks='the transformed box is the box of two corners, which misses the other two under such a shear',
  demo="""
from x7.geom.geom import *
from x7.geom.transform import *
b = BBox(0, 0, 10, 10).transformed(Transform((1, 0, 0, -1, 1, 0)))
assert b.as_tuple() == (0, -10, 10, 10), b
assert BBox(0, 0, 2, 3).transformed(Transform().scale(2, 2)).as_tuple() == (0, 0, 4, 6)
"""),
dict(id='c08-touches-side', property='C08',
  edits=[(G, "        return ((other.xh == self.xl or other.xl == self.xh) and self.yl < other.yh and other.yl < self.yh) or \\",
             "        return ((other.xh == self.xl or other.xl == self.xh) and max(self.yl, other.yl) < other.yh <= self.yh) or \\")],
  needs='two boxes that share part of a vertical border where the second reaches above the first',
  breaks='a shared border is not reported when the other box sticks out at the top',
  demo="""
from x7.geom.geom import *
a, b = BBox(0, 0, 10, 10), BBox(10, 5, 20, 15)
assert b.touches_side(a)
assert a.touches_side(b)
"""),
dict(id='c09-scale-rows', property='C09',
  edits=[(T, "        x, y = np.hypot(m[0], m[1])[0:2]", "        x, y = np.hypot(m[:2, 0], m[:2, 1])")],
  needs='a non-uniform scale followed by a rotation',
  breaks='the scale factors are taken from the rows of the matrix and not from its columns',
  demo="""
from x7.geom.transform import *
sx, sy = Transform().scale(2, 6).rotate(30).scale_vals()
assert abs(sx - 2) < 1e-9 and abs(sy - 6) < 1e-9, (sx, sy)
"""),
dict(id='c12-width-rows', property='C12',
  edits=[(T, "        sx, sy = self.scale_vals()\n        return width * (abs(sx) + abs(sy)) / 2",
             "        sx, sy = self.scale_vals()\n        if sx == sy:\n            return width * sx\n        a, b, _, d, e, _ = self.as_6tuple()\n        return width * (abs(a) + abs(e)) / 2")],
  needs='a transform with different scale factors and a rotation (the diagonal is then not the scale)',
  breaks='widths are scaled by the diagonal of the matrix when the factors differ',
  demo="""
from x7.geom.transform import *
w = Transform().scale(2, 6).rotate(90).transform_width(3)
assert abs(w - 12) < 1e-9, w
"""),
dict(id='c13-group-curves', property='C13',
  edits=[(M, "        return [c.transform(self.xform) for e in self.elems.values() for c in e.as_curves()]",
             "        curves = []\n        pending = list(self.elems.values())\n        while pending:\n            e = pending.pop(0)\n            if isinstance(e, Group):\n                pending[:0] = e.elems.values()\n            else:\n                curves.extend(c.transform(self.xform) for c in e.as_curves())\n        return curves")],
  needs='a group inside of a group, the inner one with a transform of its own',
  breaks='the curves of a nested group lose the transform of the inner group',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
pb = PenBrush('black')
r = ElemRectangle('r', pb, Point(0, 0), Point(1, 2))
inner = Group('inner', pb, elems=[r], xform=Transform().translate(10, 20))
outer = Group('outer', pb, elems=[inner], xform=Transform().scale(2, 2))
c, = outer.as_curves()
assert c.bbox().as_tuple() == (20, 40, 22, 44), c.bbox()
"""),
dict(id='c15-limit-sign', property='C15',
  edits=[(M, "                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)", "                scale = cls.OFFSET_PT_LIMIT")],
  needs='a very sharp corner offset to the side where the scale is negative',
  breaks='at a spike the limited offset goes to the wrong side',
  demo="""
from x7.geom.geom import *
from x7.geom.model import ElemCurve
dl, dr = Vector(1, 0.001), Vector(1, -0.001)
a = ElemCurve.offset_pt(dl, Point(0, 0), dr, 5)
b = ElemCurve.offset_pt(dl, Point(0, 0), dr, -5)
assert (a - Point(0, 0)).close(Point(0, 0) - b), (a, b)
"""),
dict(id='c16-arc-cw-full', property='C16',
  edits=[(U, "        if sa < ea:\n            sa += 360", "        if sa <= ea:\n            sa += 360")],
  needs='a clockwise arc that starts and ends at the same angle',
  breaks='a clockwise arc of no extent becomes a full circle',
  demo=STUB + """
from x7.geom.utils import arc
assert len(arc(5, 30, 30, direction='cw')) == len(arc(5, 30, 30, direction='ccw')) == 1, arc(5, 30, 30, direction='cw')
"""),
dict(id='c17-var-rounded', property='C17',
  edits=[(M, """            value = repr(value)
            if value not in self.vars:
                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
            return self.vars[value]""", """            key = prefix, str(value)
            if key not in self.prefixes:
                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.prefixes[key] = '%s_%d' % (prefix, self.prefixes[prefix])
                self.vars[repr(value)] = self.prefixes[key]
            return self.prefixes[key]""")],
  needs='two shapes whose transforms agree to two decimal places but differ',
  breaks='both are written with the one variable, so reading the dump back changes the second shape',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
pb = PenBrush('black')
def el(n, d):
    return ElemRectangle(n, pb, Point(0, 0), Point(1, 2), xform=Transform().translate(d, 0))
g = Group('g', pb, elems=[el('a', 0.501), el('b', 0.504)])
ns = {}
exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c18-multi-time', property='C18',
  edits=[(A, "            t = (t-self.all_steps[idx-1]) / (self.all_steps[idx] - self.all_steps[idx-1])",
             "            t = (t-self.all_steps[idx-1]) / (self.all_steps[idx] - self.all_steps[0]) if idx == 1 else \\\n                (t-self.all_steps[idx-1]) * len(self.all_steps) / (len(self.all_steps) - 1)\n            t = min(t, 1.0)")],
  needs='a morph through several shapes whose times are not evenly spaced, after its first step',
  breaks='within a later step the shape is not between its two neighbours in proportion to the time',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.anim import *
from x7.geom.colors import *
pb = PenBrush('black')
def cv(n, d):
    return ElemCurve(n, pb, [ControlPoint(Point(x + d, y), Vector(0, 0), Vector(0, 0)) for x, y in [(0, 0), (4, 0), (4, 4)]])
a = cv('a', 0)
g = Group('g', pb, elems=[a])
m = MorphMultiStep(g, a, [(0.25, cv('b', 1)), (1.0, cv('c', 2))], lambda t: t, force=False)
m.update(0.625)
assert m.morph.control_points[0].c.close(Point(1.5, 0)), m.morph.control_points[0]
"""),
dict(id='c21-name-count', property='C21',
  edits=[(M, """                num = 0
                while (name_try := '%s#%d' % (name, num)) in self.elems:
                    num += 1
                name = name_try""", """                name = '%s#%d' % (name, sum(1 for n in self.elems if n.startswith(name + '#')))""")],
  needs='a group from which an automatically named member was removed (or replaced) before another one is added',
  breaks='adding a shape whose name is taken fails with duplicate name',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
pb = PenBrush('black')
def el():
    return ElemRectangle('r', pb, Point(0, 0), Point(1, 2))
g = Group('g', pb)
for _ in range(3):
    g.add('r', el())
assert list(g.elems) == ['r', 'rectangle#0', 'rectangle#1']
del g.elems['rectangle#0']
g.add('r', el())
assert len(g.elems) == 3, list(g.elems)
"""),
dict(id='c22-restore-half', property='C22',
  edits=[(M, """        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp""", """        super().restore(other)
        if len(self.control_points) == len(other.control_points):
            for cp""")],
  needs='restoring a curve from a saved curve with another number of control points',
  breaks='the refused restore has already replaced name, pen and transform',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
def cv(n, k):
    return ElemCurve(n, PenBrush(n), [ControlPoint(Point(i, 0), Vector(0, 0), Vector(0, 0)) for i in range(k)])
c = cv('red', 3)
try:
    c.restore(cv('blue', 2))
except Exception:
    pass
else:
    assert 0
assert c == cv('red', 3), (c.name, c.penbrush)
"""),
dict(id='c23-pen-zero-width', property='C23',
  edits=[(C, "        return Pen(brush or self.brush, width if width is not None else self.width)",
             "        return Pen(brush or self.brush, width or self.width)")],
  needs='replacing the width of a wide pen by zero (the thinnest line)',
  breaks='a width of zero is ignored',
  demo="""
from x7.geom.colors import *
assert Pen('red', 3).replace(width=0) == Pen('red', 0)
"""),
dict(id='c24-outline-width', property='C24',
  edits=[(M, "                width = max(1, round(path.penbrush.stroke_width(draw.matrix)))\n            else:\n                width = 1\n            # print",
             "                with self.draw_space(draw):\n                    width = max(1, round(path.penbrush.stroke_width(draw.matrix)))\n            else:\n                width = 1\n            # print")],
  needs='a group with a scaling transform whose shapes have scaled (negative) pen widths... drawn via the shape itself',
  breaks='the width of outlines is scaled by the transform of the shape as well',
  demo="""
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
class Rec:
    def __init__(self): self.calls = []
    def line(self, p, **kw): self.calls.append(kw['width'])
    def ellipse(self, *a, **kw): pass
def width(elem):
    dc = DrawingContext(None, Transform().scale(2, 2))
    dc.draw = Rec()
    elem.draw(dc)
    return dc.draw.calls[0]
pb = PenBrush(Pen('red', -3))
assert width(ElemRectangle('r', pb, Point(0, 0), Point(9, 9))) == 6
assert width(ElemRectangle('r', pb, Point(0, 0), Point(9, 9), xform=Transform().scale(4, 4))) == 6
"""),
dict(id='c27-segment-end', property='C27',
  edits=[(G, "        if t_self < 0 or t_self > 1:\n            return None", "        if t_self < 0 or t_self >= 1:\n            return None")],
  needs='a segment whose far end lies exactly on the other segment, within its bounding box',
  breaks='the crossing at the end point of the first segment is not found',
  demo="""
from x7.geom.geom import *
a = Line(Point(0, 0), Point(2, 2))
b = Line(Point(1, 3), Point(3, 1))
assert a.segment_intersection(b) is not None and b.segment_intersection(a) is not None
"""),
dict(id='c28-copy-shared', property='C28',
  edits=[(V, "        return VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))",
             "        return VectorField(self.mesh, self.vx * 1.0, np.asarray(self.vy))")],
  needs='the y components of a copied field changed in place',
  breaks='a field and its copy share one array',
  demo="""
from x7.geom.geom import *
from x7.geom.vec_field import *
f = Mesh(BBox(0, 0, 1, 1), 3).zeros()
g = f.copy()
g.vx[0, 0] = 1
g.vy[0, 0] = 5
assert f.vx[0, 0] == 0 and f.vy[0, 0] == 0, f.vy
"""),
dict(id='c29-end-filter', property='C29',
  edits=[(B, "for t, s in intersections.T if (t, s) not in ((1, 0), (0, 1))])).T",
             "for t, s in intersections.T if not (t in (0, 1) and 0 <= s <= 1 or s in (0, 1))])).T")],
  needs='a curve that starts on the inside of the other curve (a T crossing)',
  breaks='crossings where just one curve has its end are dropped',
  demo="""
import x7.geom.bezier as bz
import numpy as np
from x7.geom.geom import *
class Fake:
    def __init__(self, nodes, degree): self.nodes = nodes
    def intersect(self, other): return np.array([[0.0, 1.0], [0.5, 0.0]])
    def evaluate_multi(self, ts): return np.array([[t * 10 for t in ts], [0.0 for t in ts]])
bz.BzCurve = Fake
cps = [bz.ControlPoint(Point(i, 0), Vector(0, 0), Vector(0, 0)) for i in range(4)]
out = bz.bez_intersect_new(*cps)
assert [(t, s) for _, t, s in out] == [(0.0, 0.5)], out
"""),
dict(id='c30-shadow-layer', property='C30',
  edits=[(D, """        if self.shadow:
            background = Image.alpha_composite(self.background, self.shadow)
        else:
            background = self.background
        im = Image.alpha_composite(background, self.layer)""", """        im = Image.alpha_composite(self.background, self.layer)
        if self.shadow:
            im = Image.alpha_composite(im, self.shadow)""")],
  needs='a drawing with a shadow that lies where something was drawn',
  breaks='the shadow covers the shapes',
  demo="""
from PIL import Image
from x7.geom.drawing import DrawingContext
dc = DrawingContext(Image.new('RGBA', (8, 8), 'white'), None)
dc.shadow = Image.new('RGBA', (8, 8), (0, 0, 0, 255))
dc.layer.paste((255, 0, 0, 255), (0, 0, 4, 8))
im = dc.image(crop=False)
assert im.getpixel((1, 1)) == (255, 0, 0, 255) and im.getpixel((6, 6)) == (0, 0, 0, 255), im.getpixel((1, 1))
"""),
]
