G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c08-union-flat', property='C08', edits=[(G, '''        if other.xl is None:
            return self.copy()
        if self.xl is None:
            return other.copy()
''', '''        if other.xl is None:
            return self.copy()
        if self.xl is None:
            return other.copy()
        if other.is_empty and not self.is_empty:
            return self.copy()
''')], needs='a flat box outside a box with area', breaks='the union loses a box without area',
demo="""
from x7.geom.geom import BBox
u = BBox(0, 0, 2, 2) + BBox(5, 1, 7, 1)
assert u.as_tuple() == (0, 0, 7, 2), u
"""),
dict(id='c08-side-corner', property='C08', edits=[(G, '''        return ((other.xh == self.xl or other.xl == self.xh) and self.yl < other.yh and other.yl < self.yh) or \\
               ((other.yh == self.yl or other.yl == self.yh) and self.xl < other.xh and other.xl < self.xh)
''', '''        return ((other.xh == self.xl or other.xl == self.xh) and self.yl < other.yh and other.yl < self.yh) or \\
               ((other.yh == self.yl or other.yl == self.yh) and (self.xl < other.xh and other.xl < self.xh or self.xl == other.xh == other.xl))
''')], needs='a flat upright box ending on a corner', breaks='meeting at a corner counts as sharing a side',
demo="""
from x7.geom.geom import BBox
assert not BBox(2, 2, 4, 4).touches_side(BBox(2, 0, 2, 2))
"""),
dict(id='c08-equal-touch', property='C08', edits=[(G, '''        if self.xl is None or other.xl is None:
            return False
        return ((other.xh == self.xl or other.xl == self.xh) and self.yl <= other.yh and other.yl <= self.yh) or \\
''', '''        if self.xl is None or other.xl is None or self == other:
            return False
        return ((other.xh == self.xl or other.xl == self.xh) and self.yl <= other.yh and other.yl <= self.yh) or \\
''')], needs='two equal flat boxes', breaks='two equal boxes without area no longer touch',
demo="""
from x7.geom.geom import BBox
a, b = BBox(1, 1, 1, 4), BBox(1, 1, 1, 4)
c = BBox(1, 1, 1, 5)
assert a.touches(c) and a.touches(b)
"""),
dict(id='c10-scale-x-only', property='C10', edits=[(T, '''        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
        self._inverse = None
''', '''        self._mat.pre_dot_eq(self.scale_mat(sx, sy))
        if sx != 1:
            self._inverse = None
''')], needs='undo, then a scaling of y only', breaks='undoing uses the map before the scaling',
demo="""
from x7.geom.transform import Transform
t = Transform().translate(1, 2)
t.untransform(0, 0)
t.scale(1, 4)
assert t.untransform(*t.transform(3, 5)) == (3, 5)
"""),
dict(id='c10-compose-translation', property='C10', edits=[(T, '''        self._mat.post_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        self._mat.post_dot_eq(transmat.ndmat)
        if self._inverse is not None and transmat == Matrix():
            pass        # identity: inverse still valid
        elif self._inverse is not None and (transmat.ndmat[:2, :2] == np.identity(2)).all():
            self._inverse = self._inverse.copy()
            self._inverse[:2, 2] -= transmat.ndmat[:2, 2] * self._inverse[[0, 1], [0, 1]]
        else:
            self._inverse = None
        return self
''')], needs='undo, then compose with a translation, on a scaled map', breaks='the cached inverse is updated on the wrong side',
demo="""
from x7.geom.transform import Transform
t = Transform().scale(2, 4)
t.untransform(0, 0)
t.compose(Transform().translate(1, 1))
assert t.untransform(*t.transform(3, 5)) == (3, 5)
"""),
dict(id='c09-scale-one-arg', property='C09', edits=[(T, '''        """Generate scale matrix [low-level]"""
        return np.array([[sx, 0, 0], [0, sy, 0], [0, 0, 1]])
''', '''        """Generate scale matrix [low-level]"""
        sy = sy or sx
        return np.array([[sx, 0, 0], [0, sy, 0], [0, 0, 1]])
''')], needs='a scale of zero in y', breaks='scaling by (sx, 0) scales y by sx',
demo="""
from x7.geom.transform import Transform
assert tuple(Transform().scale(2, 0).transform(3, 5)) == (6, 0)
"""),
dict(id='c09-zero-matrix', property='C09', edits=[(T, '''        if mat2x3:
            m =''', '''        if mat2x3 and any(mat2x3):
            m =''')], needs='the map that sends everything to the origin', breaks='the null map becomes the identity',
demo="""
from x7.geom.transform import Transform
assert tuple(Transform((0, 0, 0, 0, 0, 0)).transform(3, 5)) == (0, 0)
"""),
dict(id='c09-fit-offset', property='C09', edits=[(T, '''        return Transform().scale(zoom, zoom).translate(*zero_zero).scale(1, -1).translate(0, canvas_size[1])
''', '''        return Transform().scale(zoom, -zoom).translate(zero_zero[0], canvas_size[1] - abs(zero_zero[1]))
''')], needs='an origin below the canvas', breaks='a negative vertical origin is mirrored',
demo="""
from x7.geom.transform import Transform
assert tuple(Transform.canvas_fit((100, 200), 2, (10, -20)).transform(0, 0)) == (10, 220)
"""),
dict(id='c17-import-module', property='C17', edits=[(M, '''            if i not in self.imports:
                self.imports.append(i)
''', '''            if i.split()[1] not in [known.split()[1] for known in self.imports]:
                self.imports.append(i)
''')], needs='a shape class that needs another import from a module already imported from', breaks='the dumped model lacks the import and does not load',
demo=STD + """
class Special(ElemRectangle):
    ELEM_IMPORTS = ['from x7.geom.geom import ParallelLineError', 'from fractions import Fraction', 'from fractions import Decimal']
g = Group('g', pb); s = Special('s', pb, Point(0, 0), Point(1, 2)); g.add('s', s)
out = g.dump().output().splitlines()
for line in Special.ELEM_IMPORTS:
    assert line in out, line
"""),
dict(id='c23-replace-width-zero', property='C23', edits=[(C, '''        if width is not None and self.pen:
            pen = Pen(self.pen.brush, width)
''', '''        if width and self.pen:
            pen = Pen(self.pen.brush, width)
''')], needs='a width of zero', breaks='asking for the thinnest line keeps the old width',
demo="""
from x7.geom.colors import *
assert PenBrush(('red', 5)).replace(width=0).pen.width == 0
"""),
dict(id='c01-replace-in-place', property='C01', edits=[(C, '''            pen = Pen(self.pen.brush, width)
''', '''            pen = self.pen
            pen.width = width
''')], needs='the pen replaced is looked at again', breaks='replacing the width changes the pen it was asked of',
demo="""
from x7.geom.colors import *
p = PenBrush(('red', 5)); p.replace(width=2)
assert p.pen.width == 5
"""),
dict(id='c27-axis-fast', property='C27', edits=[(G, '''        if self.parallel(other):
            # Parallel
            # TODO-Could''', '''        if self.direction.x == 0 and other.direction.y == 0 and self.direction.y and other.direction.x:
            p = Point(self.origin.x, other.origin.y)
            t_self = abs((p.y - self.origin.y) / self.direction.y)
            t_other = abs((p.x - other.origin.x) / other.direction.x)
            return (p, t_self, t_other) if t_self <= 1 and t_other <= 1 else None
        if self.parallel(other):
            # Parallel
            # TODO-Could''')], needs='an upright and a level segment whose boxes ... never', breaks='equivalent', demo="""
raise SystemExit(0)
"""),
dict(id='c27-params-swapped', property='C27', edits=[(G, '''        return other.origin + other.direction*t_other, t_self, t_other
''', '''        if t_other < t_self:
            t_self, t_other = t_other, t_self
        return other.origin + other.direction*t_other, t_self, t_other
''')], needs='a crossing later on the first segment than on the second', breaks='the positions are swapped and the point is wrong',
demo="""
from x7.geom.geom import *
p, a, b = Line(Point(0, 0), Point(8, 0)).segment_intersection(Line(Point(6, -1), Point(6, 3)))
assert (p.xy(), a, b) == ((6, 0), .75, .25), (p, a, b)
"""),
dict(id='c27-zero-origin', property='C27', edits=[(G, '''        normal = self.direction.normal()
        t_other = normal.dot(self.origin-other.origin) / normal.dot(other.direction)
        return other.origin + other.direction*t_other
''', '''        normal = self.direction.normal()
        t_other = normal.dot(self.origin-other.origin) / normal.dot(other.direction)
        return other.origin + other.direction*t_other if t_other else self.origin
''')], needs='the crossing is at the origin of the other line', breaks='the origin of the first line is returned as the crossing',
demo="""
from x7.geom.geom import *
p = Line(Point(0, 0), Vector(4, 0)).intersection(Line(Point(2, 0), Vector(0, 3)))
assert p.xy() == (2, 0), p
"""),
dict(id='c31-plot-reused', property='C31', edits=[(S, '''        self.titley = plt.rcParams['axes.titley']
        self.titlepad = plt.rcParams['axes.titlepad']
''', '''        if self.titley is None:
            self.titley = plt.rcParams['axes.titley']
        if self.titlepad is None:
            self.titlepad = plt.rcParams['axes.titlepad']
''')], needs='one comparison object used twice with settings changed in between', breaks='settings from before are put back',
demo="""
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from x7.geom.testing import *
class T(TestCaseGeomExtended):
    def runTest(self): pass
    def match(self, *a, **k): return True
t = T()
cm = t.assertMatchPlot(case='a', func='f')
plt.rcParams['axes.titley'] = 0.25
with cm: plt.plot([1, 2])
plt.rcParams['axes.titley'] = 0.5
with cm: plt.plot([1, 2])
assert plt.rcParams['axes.titley'] == 0.5
"""),
dict(id='c31-delta-zero', property='C31', edits=[(S, '''        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
''', '''        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta or None)
''')], needs='an exact comparison asked for with delta 0', breaks='a delta of zero is taken for none given',
demo="""
from x7.geom.testing import *
class T(TestCaseGeomExtended):
    def runTest(self): pass
t = T()
assert t.almostEqual(Point(1, 2), Point(1 + 1e-9, 2), delta=0) is not True
"""),
dict(id='c24-extend-first', property='C24', edits=[(M, '''        if closed:
            more_points.append(curr_points[-1])
''', '''        if closed:
            more_points.append(curr_points[0])
''')], needs='an open path extended', breaks='the added outline is closed to the start of the path and not to where it left it',
demo="""
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.model import Path
from PIL import ImagePath
p = Path(PenBrush('black'), False, ImagePath.Path([(0, 0), (1, 0)]))
p.extend(ImagePath.Path([(5, 5), (6, 6)]), closed=True)
assert p.points.tolist()[-1] == (1, 0), p.points.tolist()
"""),
dict(id='c18-hide-none', property='C18', edits=[(A, '''            val = func(t)
            if val < threshold:
                return None
            else:
                return val
''', '''            val = func(t)
            return val if val and val >= threshold else None
''')], needs='a value of exactly zero at a threshold of zero', breaks='what should be shown at its start is hidden',
demo="""
from x7.geom.anim import Animation
assert Animation.hide_if(lambda t: t - 0.5)(0.5) == 0
"""),
dict(id='c18-interp-cache', property='C18', edits=[(A, '''        time, value = zip(*curve)
        time = np.array(time, dtype=float)
        value = np.array(value, dtype=float)

        def func(t):
            if isinstance(t, tuple):
''', '''        time, value = zip(*curve)
        time = np.array(time, dtype=float)
        value = np.array(value, dtype=float)
        cached = {}

        def func(t):
            if not isinstance(t, tuple):
                key = round(t, 3)
                if key not in cached:
                    cached[key] = np.interp(t, time, value)
                return cached[key]
            if isinstance(t, tuple):
''')], needs='two times within a thousandth of each other', breaks='the value of a nearby earlier time is shown',
demo="""
from x7.geom.anim import Animation
f = Animation.interpolate([(0, 0), (0.001, 100), (1, 200)])
a = f(0.0001)
assert abs(f(0.0004) - 40) < 1e-6
"""),
dict(id='c18-morph-none-once', property='C18', edits=[(A, '''            for morph in morph_cp:
                morph.c.setxy(1e6, 1e6)
''', '''            for morph in morph_cp:
                if morph.dl == Vector(0, 0):
                    continue
                morph.c.setxy(1e6, 1e6)
''')], needs='a hidden curve with a straight control point', breaks='control points without a left handle stay in sight',
demo="""
from x7.geom.anim import *
from x7.geom.anim import Morph
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
pb = PenBrush('black')
g = Group('g', pb)
mk = lambda n: ElemCurve(n, pb, [ControlPoint(Point(0, 0), Vector(), Vector(1, 1)), ControlPoint(Point(5, 0), Vector(1, 1), Vector())], False)
a, b = mk('a'), mk('b'); g.add('a', a)
m = Morph(g, a, b, lambda t: None)
m.update(0.5)
assert all(cp.c.x > 1e5 for cp in m.morph.control_points)
"""),
dict(id='c21-builder-empty-group', property='C21', edits=[(M, '''        self.the_group = group or Group(name, PenBrush('default'))
''', '''        self.the_group = group if group and group.elems else Group(name, PenBrush('default'))
''')], needs='a builder on a group that is still empty', breaks='shapes go to another group than the one given',
demo=STD + """
from x7.geom.colors import PensByShape
g = Group('g', pb)
b = GroupBuilder('b', PensByShape(), group=g)
b.rect('r', Point(0, 0), Point(1, 1))
assert 'r' in g.elems
"""),
dict(id='c16-split-mid', property='C14', edits=[(B, '''    def mid(p: BasePoint, q: BasePoint):
        return p + t*(q-p)

    a, b''', '''    def mid(p: BasePoint, q: BasePoint):
        return p + t*(q-p) if t != 1 - t else q.mid(p) if p == a else p + t*(q-p)

    a, b''')], needs='never', breaks='equivalent', demo="raise SystemExit(0)"),
dict(id='c15-split-line', property='C15', edits=[(B, '''    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
    ab = mid(a, b)
''', '''    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c
    if not cp1.dr and not cp2.dl:
        m = mid(a, d)
        return (ControlPoint(a, cp1.dl, Vector()), ControlPoint(m, Vector(), Vector()),
                ControlPoint(d, Vector(), cp2.dr))
    ab = mid(a, b)
''')], needs='a straight segment split other than in the middle', breaks='the split point is not the point of the segment at t',
demo="""
from x7.geom.bezier import *
from x7.geom.geom import *
a = ControlPoint(Point(0, 0), Vector(), Vector()); b = ControlPoint(Point(8, 0), Vector(), Vector())
l, m, r = bez_split(a, b, 0.25)
t = 0.25
assert abs(m.c.x - 8 * (3*t*t*(1-t) + t**3)) < 1e-9, m.c
"""),
dict(id='c14-bez-step-skip', property='C14', edits=[(B, '''        if pts:
            pts.extend(bez_pts[2:])  # Skip first point, as it is already there
        else:
            pts.extend(bez_pts)
    return pts
''', '''        if pts and pts[-2:] == list(bez_pts[:2]):
            pts.extend(bez_pts[2:])  # Skip first point, as it is already there
        else:
            pts.extend(bez_pts)
    if closed and len(pts) > 2 and pts[:2] == pts[-2:]:
        pts = pts[:-2]
    return pts
''')], needs='a closed path', breaks='the path no longer returns to its start',
demo="""
from x7.geom.bezier import *
from x7.geom.geom import *
from x7.geom.transform import Transform
cps = [ControlPoint(Point(0, 0), Vector(1, 0), Vector(0, 1)), ControlPoint(Point(4, 0), Vector(0, 2), Vector(1, 1))]
p = bez_path(Transform(), cps, True, 4)
assert p[:2] == p[-2:] and len(p) == 18, p
"""),
dict(id='c06-line-fixes', property='C27', edits=[(G, '''        if isinstance(direction, Vector):
            self.direction = direction
        else:
''', '''        if isinstance(direction, Vector):
            self.direction = direction.fixed()
        else:
''')], needs='a line along a calculated vector', breaks='the line no longer follows the points its direction was made of',
demo="""
from x7.geom.geom import *
a, b = Point(0, 0), Point(3, 4)
l = Line(Point(1, 1), VectorRelative(b, a))
b.setxy(6, 4)
assert l.p2.xy() == (7, 5), l.p2
"""),
dict(id='c12-parse-long', property='C12', edits=[(G, '''                    if not len(a) in {2, 3}:
''', '''                    if len(a) < 2:
''')], needs='a tuple of four', breaks='tuples that are no points are let through',
demo="""
from x7.geom.geom import *
try:
    BasePoint.parse([(1, 2, 3, 4)], allow_thruples=True)
except ValueError:
    pass
else:
    raise AssertionError
"""),
dict(id='c29-node-near', property='C29', edits=[(B, '''        if create and xy not in self.nodes:
            self.nodes[xy] = BziNode(xy)
        return self.nodes[xy]
''', '''        for key, node in self.nodes.items():
            if abs(key[0] - xy[0]) < 1e-12:
                return node
        if create and xy not in self.nodes:
            self.nodes[xy] = BziNode(xy)
        return self.nodes[xy]
''')], needs='two crossings one above the other', breaks='two crossings with the same x are taken for one',
demo="""
from x7.geom.bezier import BziGraph
g = BziGraph()
a = g.node((1.0, 2.0), True); b = g.node((1.0, 5.0), True)
assert a is not b and b.center.xy() == (1.0, 5.0)
"""),
dict(id='c05-close-any', property='C31', edits=[(S, '''        if all(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):
''', '''        if all(n == o or not hasattr(n, 'close') or n.close(o) for n, o in zip(vals_n, vals_o)):
''')], needs='control points that differ in kind only', breaks='a different kind is explained as rounding',
demo="""
from x7.geom.testing import *
from x7.geom.testing import ExtendedMatcherControlPoint
class T(TestCaseGeomExtended):
    def runTest(self): pass
m = ExtendedMatcherControlPoint(T())
a = ControlPoint(Point(0, 0), Vector(1, 0), Vector(0, 1), 'smooth'); b = ControlPoint(Point(0, 0), Vector(1, 0), Vector(0, 1), 'sharp')
assert m.explain_mismatch(a, b)[0] is False
"""),
dict(id='c13-holes-one-matrix', property='C02', edits=[(M, '''        xform = matrix.copy().compose(self.xform)
        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside], self.closed, xform.copy())
''', '''        xform = matrix.copy().compose(self.xform) if matrix != Transform() else self.xform
        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside], self.closed, xform)
''')], needs='transformed by the identity, then one of the two moved', breaks='the copy shares its transform with the original',
demo=STD + """
e = ElemWithHoles('h', PenBrush('black', 'red'), rect('o', pen=PenBrush('black', 'red')), [])
f = e.transform(Transform())
f.xform.translate(5, 5)
assert e.xform == Transform()
"""),
dict(id='c07-fixed-sort', property='C07', edits=[(G, '''        self.xl, self.xh = min(self.xl, self.xh), max(self.xl, self.xh)
        self.yl, self.yh = min(self.yl, self.yh), max(self.yl, self.yh)

    def copy(self):
''', '''        if self.xl > self.xh:
            self.xl, self.xh = self.xh, self.xl
        elif self.yl > self.yh:
            self.yl, self.yh = self.yh, self.yl

    def copy(self):
''')], needs='a box with both sides out of order', breaks='sorting repairs only one direction',
demo="""
from x7.geom.geom import BBox
b = BBox(0, 0, 1, 1)
b[0], b[1], b[2], b[3] = 5, 6, 1, 2
b.sort()
assert b.as_tuple() == (1, 2, 5, 6), b
"""),
dict(id='c28-x', property='C03', edits=[(M, '''        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]

    def transform(''', '''        self.outside = other.outside.copy()
        if len(self.inside) == len(other.inside):
            for mine, saved in zip(self.inside, other.inside):
                if type(mine) is type(saved) and not isinstance(mine, ElemCurve):
                    mine.restore(saved)
        else:
            self.inside = [e.copy() for e in other.inside]

    def transform(''')], needs='a hole that is a curve', breaks='holes that are curves are not restored',
demo=STD + """
e = ElemWithHoles('h', pb, rect('o', -9, -9), [cv('c', (0, 0), (1, 1))])
s = e.copy()
e.inside[0].control_points[0].c.setxy(7, 7)
e.restore(s)
assert e.inside[0].control_points[0].c.xy() == (0, 0)
"""),
]
BUGS = [b for b in BUGS if 'SystemExit' not in b['demo']]
