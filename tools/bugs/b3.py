G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c01-holes-pens', property='C01',
  edits=[(M, """                for elem in self.inside:
                    paths = elem.paths(dc)
                    for path in paths:
                        path.penbrush = edge_brush
                        fill_path.extend""", """                for elem in self.inside:
                    elem.penbrush = edge_brush
                    paths = elem.paths(dc)
                    for path in paths:
                        fill_path.extend""")],
  needs='a shape with holes that is filled, drawn once, its holes looked at afterwards',
  breaks='drawing takes the fill out of the pens of the holes',
  demo=STD + """
h = ElemWithHoles('h', PenBrush('red', 'blue'), rect('o'), [rect('i')])
before = h.inside[0].penbrush
h.paths(DrawingContext(None, None))
assert h.inside[0].penbrush == before == PenBrush('red', 'blue'), h.inside[0].penbrush
"""),
dict(id='c02-stack-shared', property='C02',
  edits=[(T, "        dup.set_matrix(self)\n", "        dup.set_matrix(self)\n        dup.stack = self.stack\n")],
  needs='a transform copied while it has something pushed, then one of both popped',
  breaks='popping the copy empties the stack of the original',
  demo=STD + """
t = Transform().push().translate(1, 2)
c = t.copy()
t.pop()
try:
    c.pop()
except EmptyStackError:
    pass
t = Transform()
c = t.copy()
c.push()
try:
    t.pop()
except EmptyStackError:
    pass
else:
    assert 0, 'popped what was pushed on the copy'
"""),
dict(id='c03-radius-clamped', property='C03',
  edits=[(M, "        self.radius = other.radius\n", "        self.radius = min(other.radius, other.bbox_int().width / 2)\n")],
  needs='a rounded rectangle whose radius is more than half of its width',
  breaks='restoring it cuts the radius down',
  demo=STD + """
r = ElemRectangleRounded('r', pb, Point(0, 0), Point(4, 20), 5)
s = r.copy()
r.restore(s)
assert r == s, r
"""),
dict(id='c04-pen-width-sign', property='C04',
  edits=[(C, "self.brush == other.brush and self.width == other.width", "self.brush == other.brush and abs(self.width) == abs(other.width)")],
  needs='two pens of opposite widths (one of them scaled, the other in pixels)',
  breaks='a pen of fixed width equals one of scaled width',
  demo=STD + """
assert Pen('red', 3) != Pen('red', -3)
"""),
dict(id='c05-half-turn', property='C05',
  edits=[(G, "        rads = math.radians(degrees)\n", "        if degrees % 180 == 0:\n            return -self\n        rads = math.radians(degrees)\n")],
  needs='a rotation by whole turns',
  breaks='a vector rotated by 0 or 360 degrees points the other way',
  demo=STD + """
assert Vector(1, 2).rotate(180).close(Vector(-1, -2))
assert Vector(1, 2).rotate(360).close(Vector(1, 2))
"""),
dict(id='c06-collapsed-chain', property='C06',
  edits=[(G, "        base_x, base_y = base.xy()\n        return PointRelative(x - base_x, y - base_y, base)",
             "        while isinstance(base, PointRelative):\n            # Relative to a relative point is relative to its base\n            base = base.base\n        base_x, base_y = base.xy()\n        return PointRelative(x - base_x, y - base_y, base)")],
  needs='a relative point made at a position on another relative point, whose offset is changed afterwards',
  breaks='the new point does not follow the relative point it was put on',
  demo=STD + """
a = PointRelative(1, 2, Point(10, 10))
b = PointRelative.fromxy(20, 20, a)
a.dx += 5
assert b.xy() == (25, 20), b.xy()
"""),
dict(id='c07-cp-box', property='C07',
  edits=[(B, "        bb.grow(self.c)\n", "        if self.kind != 'smooth':\n            # Smooth: the center is between the handles\n            bb.grow(self.c)\n")],
  needs='a control point called smooth whose handles lie on one side of it',
  breaks='the box of a curve does not include its point',
  demo=STD + """
c = ControlPoint(Point(0, 0), Vector(1, 1), Vector(2, 3))
assert c.bbox().as_tuple() == (0, 0, 2, 3), c.bbox()
"""),
dict(id='c08-contains-flat', property='C08',
  edits=[(G, "        return self.xl <= other.xl and other.xh <= self.xh and self.yl <= other.yl and other.yh <= self.yh",
             "        return self.xl <= other.xl and (other.xh <= self.xh or other.is_empty and other.xl <= self.xh) and self.yl <= other.yl and other.yh <= self.yh")],
  needs='a flat box (of no height) that sticks out on the right',
  breaks='a box contains a line that leaves it',
  demo=STD + """
assert not BBox(0, 0, 10, 10).contains(BBox(5, 5, 15, 5))
assert BBox(0, 0, 10, 10).contains(BBox(5, 5, 5, 5))
"""),
dict(id='c09-fit-zoomed', property='C09',
  edits=[(T, "        return Transform().scale(zoom, zoom).translate(*zero_zero).scale(1, -1)", "        return Transform().translate(*zero_zero).scale(zoom, -zoom)")],
  needs='a canvas with both a zoom and an origin',
  breaks='the origin is scaled by the zoom',
  demo=STD + """
assert Transform.canvas_fit((100, 100), 2.0, (10, 20)).transform(0, 0) == (10, 80)
"""),
dict(id='c10-outer-matrix', property='C10',
  edits=[(T, """        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self

    def is_simple""", """        if transmat != Matrix():
            self._mat.pre_dot_eq(transmat.ndmat)
            self._inverse = self._inverse if transmat.ndmat[0][0] == transmat.ndmat[1][1] == 1 else None
        return self

    def is_simple""")],
  needs='an inverse that was used, then a translation or shear composed outside, then the inverse used again',
  breaks='undoing uses the inverse from before',
  demo=STD + """
t = Transform().scale(2, 4)
t.untransform(1, 1)
t.compose_outer(Transform().translate(10, 20))
assert t.untransform(*t.transform(3, 5)) == (3, 5), t.untransform(*t.transform(3, 5))
"""),
dict(id='c11-group-paths', property='C11',
  edits=[(M, """        with dc.matrix.push():
            if self.xform:
                dc.matrix.compose(self.xform)
            for name, elem in self.elems.items():
                paths.extend(elem.paths(dc))
        return paths""", """        dc.matrix.push()
        if self.xform:
            dc.matrix.compose(self.xform)
        for name, elem in self.elems.items():
            if isinstance(elem, Group) and elem.hidden:
                continue
            paths.extend(elem.paths(dc))
        dc.matrix.pop()
        return paths""")],
  needs='drawing a group one of whose members fails, and drawing something else with the same context',
  breaks='the matrix of the group stays on the drawing context',
  demo=STD + """
g = Group('g', pb, elems=[ElemCurve('c', pb, [])], xform=Transform().scale(3, 3))
class Bad(ElemRectangle):
    def paths(self, dc): raise ValueError('bad')
g = Group('g', pb, elems=[Bad('b', pb, Point(0, 0), Point(1, 1))], xform=Transform().scale(3, 3))
dc = DrawingContext(None, None)
try:
    g.paths(dc)
except ValueError:
    pass
assert dc.matrix == Transform() and not dc.matrix.stack
"""),
dict(id='c13-open-closed', property='C13',
  edits=[(M, "        return [ElemCurve(self.name, self.penbrush, control_points=cps, closed=self.closed, xform=Transform())]",
             "        return [ElemCurve(self.name, self.penbrush, control_points=cps, xform=Transform())]")],
  needs='an open curve turned into curves',
  breaks='the curves of an open curve are closed',
  demo=STD + """
c = cv('c', (0, 0), (1, 1), closed=False)
assert [x.closed for x in c.as_curves()] == [False]
"""),
dict(id='c15-mirror-offset', property='C15',
  edits=[(M, "        points = [(cp.l, cp.c, cp.r) for cp in transformed.control_points]",
             "        points = [(cp.l, cp.c, cp.r) for cp in self.control_points]")],
  needs='a curve with a mirroring transform of its own',
  breaks='the direction of the outline is judged before mirroring, so a positive offset moves outwards',
  demo=STD + """
sq = [ControlPoint(Point(x, y), Vector(px, py), Vector(-px, -py)) for x, y, px, py in
      [(0, 0, 0, 1), (9, 0, -1, 0), (9, 9, 0, -1), (0, 9, 1, 0)]]
a = ElemCurve('c', pb, sq).offset(1).bbox().width
b = ElemCurve('c', pb, sq, xform=Transform().scale(-1, 1)).offset(1).bbox().width
assert abs(a - b) < 1e-9, (a, b)
"""),
dict(id='c16-arc-cw-full', property='C16',
  edits=[(U, "        if sa < ea:\n            sa += 360", "        if sa <= ea:\n            sa += 360")],
  needs='a clockwise arc that starts and ends at the same angle',
  breaks='a clockwise arc of no extent becomes a full circle',
  demo=STUB + """
from x7.geom.utils import arc
p = arc(5, 30, 30, direction='cw')
assert all(abs(x - p[0][0]) + abs(y - p[0][1]) < 1e-9 for x, y in p), len(p)
"""),
dict(id='c17-six-digits', property='C17',
  edits=[(G, "        x, y = self.xy()\n        return '%s(%s, %s%s%s)' % (self.__class__.__name__, x, y, extra, self._namestr())",
             "        x, y = self.xy()\n        return '%s(%s, %s%s%s)' % (self.__class__.__name__, round(x, 9), round(y, 9), extra, self._namestr())")],
  needs='a point with coordinates that need more than nine decimal places',
  breaks='the printed point reads back as another one',
  demo=STD + """
p = Point(1/3, 1e-11)
assert eval(repr(p)) == p, repr(p)
"""),
dict(id='c18-morph-skip', property='C18',
  edits=[(A, """            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                # print(' mot=', m, o, tgt)
""", """            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                if o == tgt:
                    continue        # Never moves
""")],
  needs='a morph that hides its shape and shows it again, with a point that source and target share',
  breaks='points that do not move stay off-screen after the shape was hidden',
  demo=STD + """
from x7.geom.anim import *
a, b = cv('a', (0, 0), (4, 0)), cv('b', (0, 0), (8, 0))
g = Group('g', pb, elems=[a])
m = Morph(g, a, b, lambda t: None if t < 0 else t)
m.update(-1)
m.update(0.5)
assert [tuple(cp.c) for cp in m.morph.control_points] == [(0, 0), (6, 0)], m.morph
"""),
dict(id='c21-lookup-last', property='C21',
  edits=[(M, """        if head == 'outside':
            if tail == self.outside.name:
                return self.outside""", """        if head == 'outside':
            if not tail or tail.endswith(self.outside.name):
                return self.outside""")],
  needs='looking up a name in a shape with holes that ends like the name of its outline',
  breaks='a name that does not exist finds the outline',
  demo=STD + """
h = ElemWithHoles('h', pb, rect('edge'), [rect('i')])
assert h.lookup('outside.edge') is h.outside
try:
    h.lookup('outside.other_edge')
except KeyError:
    pass
else:
    assert 0
"""),
dict(id='c22-add-renames', property='C22',
  edits=[(M, """        if '.' in name:
            raise ValueError('name may not contain ".": %r' % name)
        if name in self.elems:
            raise ValueError('duplicate name: %r' % name)
        self.elems[name] = elem
        elem.name = name
""", """        elem.name = name
        if '.' in name:
            raise ValueError('name may not contain ".": %r' % name)
        if name in self.elems:
            raise ValueError('duplicate name: %r' % name)
        self.elems[name] = elem
""")],
  needs='adding a shape under a name with a dot, which is refused',
  breaks='the refused shape has been renamed',
  demo=STD + """
g, r = Group('g', pb), rect('r')
try:
    g.add('a.b', r)
except ValueError:
    pass
else:
    assert 0
assert r.name == 'r', r.name
"""),
dict(id='c23-tuple-color', property='C23',
  edits=[(C, "        elif isinstance(pen, tuple) and len(pen) == 2:", "        elif isinstance(pen, tuple) and len(pen) == 2 and isinstance(pen[0], str):")],
  needs='a pen given as a colour tuple together with a width',
  breaks='((r, g, b), width) becomes a pen whose colour is the whole tuple',
  demo=STD + """
p = PenBrush(((255, 0, 0), 3)).pen
assert (p.brush.color, p.width) == ((255, 0, 0), 3), p
"""),
dict(id='c24-shadow-group', property='C24',
  edits=[(M, "            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:",
             "            if draw.shadow_color and self.penbrush.fill_color != TRANSPARENT:")],
  needs='the shadow of a group with a member filled with TRANSPARENT',
  breaks='transparent members of a group throw a shadow',
  demo=STD + """
class Rec:
    def __init__(self): self.fills = []
    def polygon(self, p, fill): self.fills.append(fill)
    def line(self, *a, **kw): pass
g = Group('g', pb, elems=[rect('r', pen=PenBrush(None, TRANSPARENT)), rect('s', pen=PenBrush(None, 'red'))])
dc = DrawingContext(None, None)
dc.draw, dc.shadow_color = Rec(), 'grey'
g.draw(dc)
assert dc.draw.fills == [TRANSPARENT, 'grey'], dc.draw.fills
"""),
dict(id='c25-reset-none', property='C25',
  edits=[(T, "    def reset(self):\n        self._mat = Matrix()", "    def reset(self):\n        if self == Transform():\n            return\n        self._mat = Matrix()")],
  needs='resetting a transform that is already the identity, in a chain',
  breaks='reset() gives nothing to go on with',
  demo=STD + """
assert Transform().scale(2, 2).reset().translate(1, 2).transform(0, 0) == (1, 2)
assert Transform().reset().translate(1, 2).transform(0, 0) == (1, 2)
"""),
dict(id='c27-closest-clamped', property='C27',
  edits=[(G, "        dot = to_point.dot(d_unit)\n", "        dot = max(to_point.dot(d_unit), 0)\n")],
  needs='the closest point to a point behind the origin of the line',
  breaks='lines do not extend backwards',
  demo=STD + """
assert Line(Point(0, 0), Vector(1, 0)).closest(Point(3, 4)) == Point(3, 0)
assert Line(Point(0, 0), Vector(1, 0)).closest(Point(-3, 4)) == Point(-3, 0)
"""),
dict(id='c28-scale-zero', property='C28',
  edits=[(V, "        sy = sy if sy is not None else sx\n", "        sy = sy or sx\n")],
  needs='a field scaled by zero in y only',
  breaks='the y components are scaled like x',
  demo=STD + """
from x7.geom.vec_field import *
import numpy as np
m = Mesh(BBox(0, 0, 1, 1), 3)
f = VectorField(m, np.ones((3, 3)), np.ones((3, 3))).scaled(2, 0)
assert f.vx[0, 0] == 2 and f.vy[0, 0] == 0
"""),
dict(id='c29-unsorted', property='C29',
  edits=[(B, "        for t_ix, xy_ix in sorted(intersections):", "        for t_ix, xy_ix in intersections:")],
  needs='a segment crossed by two others, the farther crossing being found first',
  breaks='the segment is split at wrong parameters',
  demo=STD + """
import x7.geom.bezier as bz
sym = [ControlPoint(Point(x, y), Vector(0, 0), Vector(0, 0)) for x, y in
       [(0, 0), (10, 0), (8, 5), (7, -5), (3, -5), (2, 5)]]
def line(a, b, c, d):
    try:
        hit = Line(a.c, b.c - a.c).segment_intersection(Line(c.c, d.c - c.c))
    except Exception:
        return []
    if hit and 1e-9 < hit[1] < 1 - 1e-9 and 1e-9 < hit[2] < 1 - 1e-9:
        # straight cubic with zero handles: position is 3t^2-2t^3
        def inv(s):
            lo, hi = 0.0, 1.0
            for _ in range(200):
                t = (lo + hi) / 2
                lo, hi = (t, hi) if 3*t*t - 2*t*t*t < s else (lo, t)
            return (lo + hi) / 2
        return [(hit[0], inv(hit[1]), inv(hit[2]))]
    return []
bz.bez_intersect_new = lambda a, b, c, d, **kw: line(a, b, c, d)
curves = bz.bez_self_intersect(sym)
assert len(curves) == 3, len(curves)
"""),
dict(id='c30-image-twice', property='C30',
  edits=[(D, """            background = Image.alpha_composite(self.background, self.shadow)
        else:
            background = self.background
        im = Image.alpha_composite(background, self.layer)""", """            self.background = Image.alpha_composite(self.background, self.shadow)
        im = Image.alpha_composite(self.background, self.layer)""")],
  needs='the picture of a drawing with a half transparent shadow taken twice',
  breaks='every picture taken darkens the background by the shadow',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (4, 4), 'white'), None)
dc.shadow = Image.new('RGBA', (4, 4), (0, 0, 0, 128))
a, b = dc.image(crop=False), dc.image(crop=False)
assert a.getpixel((1, 1)) == b.getpixel((1, 1)), (a.getpixel((1, 1)), b.getpixel((1, 1)))
"""),
dict(id='c31-tag-quotes', property='C31',
  edits=[(S, "                        dc.append('(%r, %s, %r),' % (s, ed, t))", "                        dc.append(\"('%s', %s, %r),\" % (s, ed, t))")],
  needs='saved test data with a tag that contains a quote',
  breaks='the saved data does not load',
  demo=STD + """
from x7.geom.testing import PicklerExtensionGeom
p = PicklerExtensionGeom.__new__(PicklerExtensionGeom)
text = p.do_pickle([("it's", rect('r'), Transform())], '')
assert eval(text)[0][0] == "it's"
"""),
]
