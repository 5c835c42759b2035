G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c06-neg-zero', property='C06',
  edits=[(G, """    def __neg__(self) -> 'Vector':
        x, y = self.xy()
        return Vector(-x, -y)
""", """    def __neg__(self) -> 'Vector':
        if not self:
            return self         # avoid -0.0
        x, y = self.xy()
        return Vector(-x, -y)
""")],
  needs='a zero vector that is negated, kept, and set later',
  breaks='the negated vector follows the vector it was computed from',
  demo=STD + """
v = Vector(0, 0)
w = -v
v.setxy(3, 4)
assert w == Vector(0, 0), w
"""),
dict(id='c05-unit-tiny', property='C05',
  edits=[(G, "        if length == 0:\n            raise ZeroDivisionError", "        if length < 1e-6:\n            raise ZeroDivisionError")],
  needs='a very short vector',
  breaks='the unit of a short vector is refused',
  demo=STD + """
assert Vector(3e-7, 4e-7).unit().close(Vector(0.6, 0.8), 1e-9)
"""),
dict(id='c27-from-pts-live', property='C27',
  edits=[(G, "        return Line(p1, p2-p1)\n", "        return Line(p1, VectorRelative(p2, p1))\n")],
  needs='comparing a line from two points with the same line built otherwise',
  breaks='a line from two points differs from the same line built from point and direction',
  demo=STD + """
p, q = Point(1, 2), Point(4, 6)
assert Line.from_pts(p, q) == Line(p, Vector(3, 4))
"""),
dict(id='c07-expand-zero', property='C07',
  edits=[(G, "        expand_y = expand_x if expand_y is None else expand_y\n", "        expand_y = expand_y or expand_x\n")],
  needs='expanding horizontally only: expand(5, 0)',
  breaks='a box expanded by nothing vertically grows vertically as well',
  demo=STD + """
assert BBox(0, 0, 1, 1).expand(5, 0) == BBox(-5, 0, 6, 1)
"""),
dict(id='c11-reset-stack', property='C11',
  edits=[(T, "    def reset(self):\n        self._mat = Matrix()\n", "    def reset(self):\n        self._mat = Matrix()\n        self.stack = []\n")],
  needs='reset between a push and its pop',
  breaks='reset forgets the pushed matrices, so the pop is refused',
  demo=STD + """
t = Transform().translate(1, 2)
with t.push():
    t.reset()
assert t == Transform().translate(1, 2)
"""),
dict(id='c25-copy-singular', property='C25',
  edits=[(T, "        self._mat = xform._mat.copy()\n        self._inverse = None\n", "        self._mat = xform._mat.copy()\n        self._inverse = xform.inverse\n")],
  needs='copying a map that flattens (scale by zero)',
  breaks='maps without inverse, and shapes that have one, cannot be copied',
  demo=STD + """
t = Transform().scale(1, 0)
assert t.copy() == t
"""),
dict(id='c10-inverse-incremental', property='C10',
  edits=[(T, "        self._mat.pre_dot_eq(self.translate_mat(dx, dy))\n        self._inverse = None\n", """        self._mat.pre_dot_eq(self.translate_mat(dx, dy))
        if self._inverse is not None:
            # Keep the inverse up to date, it is expensive to compute
            self._inverse = np.dot(self.translate_mat(-dx, -dy), self._inverse)
""")],
  needs='an inverse query, then a translation, on a map that also scales or rotates',
  breaks='the inverse is wrong after translating a map whose inverse was asked for',
  demo=STD + """
t = Transform().scale(2, 3)
t.untransform(1, 1)
t.translate(5, 7)
assert t.untransform(*t.transform(1, 1)) == (1, 1), t.untransform(*t.transform(1, 1))
"""),
dict(id='c09-near-zero-loose', property='C09',
  edits=[(T, "    return abs(v) < 1e-16\n", "    return abs(v) < 1e-6\n")],
  needs='a map with a tiny scale, e.g. model units of micrometres',
  breaks='simplify drops small factors: a shape scaled down strongly collapses',
  demo=STD + """
t = Transform((1e-7, 0, 3, 0, 1e-7, 4))
a, b = t.simplify()
assert a.copy().compose(b) == t, (a, b)
"""),
dict(id='c28-outside-zero', property='C28',
  edits=[(V, "            self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=None)\n", "            self.interp_x = rgi(coords, self.vx, method='linear', bounds_error=False, fill_value=0.0)\n")],
  needs='a point outside the box of the mesh',
  breaks='points outside the mesh are not moved across, though they are moved up',
  demo=STD + """
from x7.geom.vec_field import *
import numpy as np
m = Mesh(BBox(0, 0, 10, 10), 3)
vf = VectorField(m, np.ones((3, 3)), np.ones((3, 3)))
assert vf.transform(20, 5) == (21, 6), vf.transform(20, 5)
"""),
dict(id='c28-normalized-near', property='C28',
  edits=[(V, "        max_mag = np.amax(mags)\n", "        max_mag = np.amax(mags)\n        if abs(max_mag - 1) < 1e-3:\n            return self.copy()          # already normalized\n")],
  needs='a field whose longest vector is nearly one long',
  breaks='it is not normalised',
  demo=STD + """
from x7.geom.vec_field import *
import numpy as np
m = Mesh(BBox(0, 0, 10, 10), 3)
vf = VectorField(m, np.full((3, 3), 0.9995), np.zeros((3, 3))).normalized()
assert abs(vf.vx[1, 1] - 1) < 1e-9, vf.vx[1, 1]
"""),
dict(id='c28-eq-close', property='C28',
  edits=[(V, "            and np.array_equal(self.vx, other.vx) and np.array_equal(self.vy, other.vy)\n        )\n\n    def copy", "            and np.allclose(self.vx, other.vx) and np.allclose(self.vy, other.vy)\n        )\n\n    def copy")],
  needs='two fields with nearly the same vectors',
  breaks='fields with different vectors compare equal',
  demo=STD + """
from x7.geom.vec_field import *
import numpy as np
m = Mesh(BBox(0, 0, 10, 10), 3)
a = VectorField(m, np.full((3, 3), 1000.0), np.zeros((3, 3)))
b = VectorField(m, np.full((3, 3), 1000.001), np.zeros((3, 3)))
assert a != b
"""),
dict(id='c14-single-cp', property='C14',
  edits=[(M, "            if self.closed:\n                extra = control_points  # Loop back to start\n", "            if self.closed and len(control_points) > 1:\n                extra = control_points  # Loop back to start\n")],
  needs='a closed curve of a single control point (a loop)',
  breaks='its path is empty',
  demo=STD + """
dc = DrawingContext(None, None)
e = ElemCurve('e', pb, [ControlPoint(Point(1, 2), Vector(10, 5), Vector(-10, 5))], True)
assert len(list(e.paths(dc)[0].points)) > 10
"""),
dict(id='c15-split-whole', property='C15',
  edits=[(B, "    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c\n    ab = mid(a, b)\n", "    if t >= 1:\n        return cp1, cp2, cp2        # nothing to split off\n    a, b, c, d = cp1.c, cp1.r, cp2.l, cp2.c\n    ab = mid(a, b)\n")],
  needs='a split at the very end of a segment',
  breaks='the second part is a loop instead of a point',
  demo=STD + """
l, m, r = bez_split(ControlPoint(Point(0, 0), Vector(), Vector(1, 1)), ControlPoint(Point(4, 0), Vector(-1, 2), Vector(3, 3)), 1)
assert m.r == Point(4, 0) and r.l == Point(4, 0), (m, r)
"""),
dict(id='c17-name-quote', property='C17',
  edits=[(M, "        basic = '%s(%r, %s, closed=%r, ' % (\n", "        basic = '%s(\\'%s\\', %s, closed=%r, ' % (\n")],
  needs='a shape name with a quote or a backslash',
  breaks='the dumped program does not load',
  demo=STD + """
g = Group('g', pb)
g.add("it's", rect("it's"))
ns = {}
exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c17-xform-near', property='C17',
  edits=[(M, "        if self.xform != Transform():\n            xform = dc.set_var(", "        if str(self.xform) != str(Transform()):\n            xform = dc.set_var(")],
  needs='a shape whose own transform differs from the identity by less than 0.005',
  breaks='its transform is left out of the dump',
  demo=STD + """
g = Group('g', pb)
g.add('r', rect('r', xform=Transform().translate(0.001, 0)))
ns = {}
exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c21-fix-middle', property='C21',
  edits=[(M, "            name = name.rpartition('.')[2]\n", "            name = name.partition('.')[2] or name\n")],
  needs='a path of three parts added with fixname',
  breaks='a dotted name is not shortened to its last part, and the shape refused',
  demo=STD + """
g = Group('g', pb)
e = rect('a.b.c')
g.add('a.b.c', e, True)
assert g.lookup('c') is e
"""),
dict(id='c21-replace-nested', property='C21',
  edits=[(M, "                count += e.replace(elem, replacement)\n", "                count = count or e.replace(elem, replacement)\n")],
  needs='a shape occurring in a group and again in a nested group after it',
  breaks='only the first occurrence is replaced',
  demo=STD + """
g = Group('g', pb); h = Group('h', pb)
e, f = rect('e'), rect('f', 5)
g.add('e', e); h.add('e', e); g.add('h', h)
g.replace(e, f)
assert g.lookup('h.f') is f
"""),
dict(id='c24-width-trunc', property='C24',
  edits=[(M, "                width = max(1, round(path.penbrush.stroke_width(draw.matrix)))\n            else:", "                width = max(1, int(path.penbrush.stroke_width(draw.matrix)))\n            else:")],
  needs='a pen whose width on the canvas is not whole, e.g. 2.9 pixels',
  breaks='outlines are drawn a pixel too thin',
  demo=STD + """
class D:
    def __init__(self): self.w = []
    def line(self, p, fill=None, width=0, joint=None): self.w.append(width)
    def ellipse(self, *a, **k): pass
dc = DrawingContext(None, None)
dc.draw = D()
ElemRectangle('r', PenBrush(('black', 2.9)), Point(10, 10), Point(30, 30)).draw(dc)
assert dc.draw.w == [3], dc.draw.w
"""),
dict(id='c24-shadow-clear', property='C24',
  edits=[(M, "            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:\n", "            if draw.shadow_color:\n")],
  needs='a shadow of a shape filled with the transparent colour',
  breaks='transparent fillings cast a shadow',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (60, 60), 'white'), None)
dc.shadow_draw(ElemRectangle('r', PenBrush(None, TRANSPARENT), Point(10, 10), Point(30, 30)))
assert dc.shadow.getbbox() is None or dc.shadow.getextrema()[3][1] == 0, dc.shadow.getextrema()
"""),
dict(id='c24-hole-first-path', property='C24',
  edits=[(M, "                    for path in paths:\n                        path.penbrush = edge_brush\n                        fill_path.extend(path.points, closed=True)\n", "                    for path in paths:\n                        path.penbrush = edge_brush\n                    fill_path.extend(paths[0].points, closed=True)\n")],
  needs='a hole that is a group of several shapes',
  breaks='only the first shape of the group is left out of the filling',
  demo=STD + """
dc = DrawingContext(None, None)
pf = PenBrush('black', 'red')
g = Group('g', pb, elems=[rect('a', 2, 2), rect('b', 6, 6)])
h = ElemWithHoles('h', pf, ElemRectangle('o', pf, Point(0, 0), Point(20, 20)), [g])
pts = [tuple(p) for p in h.paths(dc)[0].points]
assert (6, 6) in pts, pts
"""),
dict(id='c23-draft-width', property='C23',
  edits=[(C, "            pen = PenBrush((color, 0.0), None)\n", "            pen = PenBrush((color, width), None)\n")],
  needs='draft pens made with a width',
  breaks='drafts get fat lines',
  demo=STD + """
assert PensByShape.make(True, 'white', width=5)['edge'].pen.width == 0
"""),
dict(id='c25-unnamed-shape', property='C25',
  edits=[(M, "        self.name = name or ''\n", "        self.name = name\n")],
  needs='a shape made with no name (None)',
  breaks='it cannot be walked',
  demo=STD + """
assert [n for n, e, t in rect(None).iter_elems('root')] == ['root.']
"""),
dict(id='c29-skip-neighbours', property='C29',
  edits=[(B, "    for a, b in itertools.combinations(all_curves, 2):\n", "    for a, b in itertools.combinations(all_curves, 2):\n        if len(all_curves) > 3 and a[1].c.xy() == b[0].c.xy() and not a[1].dl and not b[0].dr:\n            continue            # straight lines joined end to start cannot cross again\n")],
  needs='neighbouring segments leaving a sharp corner that cross again',
  breaks='that crossing is not found',
  demo=STD + """
import x7.geom.bezier as B
seen = []
real = B.bez_intersect_new
B.bez_intersect_new = lambda a, b, c, d, **k: (seen.append((a.c.xy(), c.c.xy())), real(a, b, c, d, **k))[1]
B.bz_plot_curves = lambda *a, **k: None
cps = [ControlPoint(Point(0, 0), Vector(), Vector(10, 10)), ControlPoint(Point(4, 0), Vector(), Vector()),
       ControlPoint(Point(8, 8), Vector(5, 5), Vector(1, 1)), ControlPoint(Point(0, 20), Vector(), Vector())]
B.bez_self_intersect(cps)
assert ((0, 0), (4, 0)) in seen, seen
"""),
dict(id='c30-shadow-realloc', property='C30',
  edits=[(D, "        if not self.shadow:\n            self.shadow = Image.new", "        if not self.shadow or self.shadow_offset != (0, 0):\n            self.shadow = Image.new")],
  needs='shadows of two models in one picture',
  breaks='the second shadow removes the first',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (90, 90), 'white'), None)
dc.shadow_draw(ElemRectangle('r', PenBrush(None, 'red'), Point(2, 2), Point(10, 10)))
dc.shadow_draw(ElemRectangle('r', PenBrush(None, 'red'), Point(50, 50), Point(60, 60)))
assert dc.shadow.getpixel((5, 5))[3] > 0
"""),
dict(id='c31-any-elem', property='C31',
  edits=[(S, "            if all(isinstance(d, Elem) for d in data):\n", "            if data and isinstance(data[0], Elem):\n")],
  needs='a list whose first item is a shape and another is not',
  breaks='other data is not left to the pickler: saving fails',
  demo=STD + """
from x7.geom.testing import *
from x7.geom.testing import PicklerExtensionGeom
x = PicklerExtensionGeom(None)
assert x.do_pickle([rect('a'), 3], '') is None
"""),
dict(id='c31-plot-late', property='C31',
  edits=[(S, """        new_data = fig_to_image(self.shrink)
        plt.rcParams['axes.titley'] = self.titley
        plt.rcParams['axes.titlepad'] = self.titlepad
        msg = self.test_case.match(new_data, self.case, self.func, type(self.test_case))
""", """        new_data = fig_to_image(self.shrink)
        msg = self.test_case.match(new_data, self.case, self.func, type(self.test_case))
        plt.rcParams['axes.titley'] = self.titley
        plt.rcParams['axes.titlepad'] = self.titlepad
""")],
  needs='a plot comparison that fails with an error',
  breaks='the plot settings stay changed',
  demo=STD + """
from x7.geom.testing import PlotMatchContextManager
import matplotlib.pyplot as plt
class T:
    failureException = AssertionError
    def match(self, *a): raise KeyError('no such case')
before = (plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad'])
try:
    with PlotMatchContextManager(10, '0', 'f', T()):
        plt.plot([1, 2])
except KeyError:
    pass
assert before == (plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad'])
"""),
dict(id='c18-hide-equal', property='C18',
  edits=[(A, "            if val < threshold:\n", "            if val <= threshold:\n")],
  needs='a value exactly at the threshold',
  breaks='the shape is hidden though it is not below the threshold',
  demo=STD + """
from x7.geom.anim import Animation
assert Animation.hide_if(lambda t: t, 0)(0) == 0
"""),
dict(id='c18-ramp-flat', property='C18',
  edits=[(A, "        return Animation.interpolate([(0, 0), (start, 0), (end, 1), (1, 0)])\n", "")] if False else
        [(A, "        return Animation.interpolate([(0, 0), (start, 0), (end, 1), (1, 1)])\n", "        return Animation.interpolate([(start, 0), (end, 1)] if start < end else [(0, 0), (1, 1)])\n")],
  needs='a ramp that is a jump (start equal to end)',
  breaks='a jump becomes a slope',
  demo=STD + """
from x7.geom.anim import Animation
assert Animation.ramp_up(0.5, 0.5)(0.25) == 0
"""),
dict(id='c16-rotate-zero', property='C16',
  edits=[(U, "    t = Transform().rotate_ccw(angle)\n", "    if not angle:\n        return path[:]\n    t = Transform().rotate_ccw(angle)\n")],
  needs='a rotation by nothing, asked for as pairs',
  breaks='points are returned where pairs were asked for, and the points given are shared',
  demo=STUB + """
from x7.geom.utils import *
from x7.geom.geom import Point
assert path_rotate_ccw([Point(1, 2)], 0) == [(1, 2)]
"""),
dict(id='c16-arc-steps-none', property='C16',
  edits=[(U, "    steps = int(abs(ea-sa)+1) if steps < 0 else steps\n", "    steps = int(abs((ea-sa) % 360)+1) if steps < 0 else steps\n")],
  needs='direction none with more than a whole turn and no step count',
  breaks='an arc of several turns has only the points of the rest',
  demo=STUB + """
from x7.geom.utils import *
assert len(arc(1, 0, 720, direction='none')) > 700, len(arc(1, 0, 720, direction='none'))
"""),
dict(id='c02-as-curves-identity', property='C02',
  edits=[(M, "        cps = [cp.transform(self.xform) for cp in self.as_digi_points()]\n", "        cps = self.as_digi_points() if self.xform == Transform() else [cp.transform(self.xform) for cp in self.as_digi_points()]\n")],
  needs='converting an untransformed curve, then changing one of the two',
  breaks='the conversion shares its control points with the curve',
  demo=STD + """
e = cv('e', (1, 2), (3, 4))
c, = e.as_curves()
e.control_points[0].kind = 'sharp'
assert c.control_points[0].kind == 'smooth'
"""),
dict(id='c02-transform-identity', property='C02',
  edits=[(M, """        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            cps = [cp.transform(matrix) for cp in self.control_points]
            return""", """        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            if matrix == Transform():
                cps = self.control_points
            else:
                cps = [cp.transform(matrix) for cp in self.control_points]
            return""")],
  needs='a curve transformed by the identity (or by the undoing of its own transform)',
  breaks='the transformed curve shares control points with the curve',
  demo=STD + """
e = cv('e', (1, 2), (3, 4), xform=Transform().translate(5, 0))
c = e.transform(Transform().translate(-5, 0))
e.control_points[0].kind = 'sharp'
assert c.control_points[0].kind == 'smooth'
"""),
dict(id='c04-brush-str', property='C04',
  edits=[(C, "        return type(self) is type(other) and self.color == other.color\n", "        return type(self) is type(other) and str(self.color) == str(other.color)\n")],
  needs='a number and a name that print alike',
  breaks='brushes of different colours compare equal',
  demo=STD + """
assert Brush(1) != Brush('1')
"""),
dict(id='c04-transform-allclose', property='C04',
  edits=[(T, "        return isinstance(other, Transform) and self._mat == other._mat\n", "        return isinstance(other, Transform) and np.allclose(self._mat.ndmat, other._mat.ndmat)\n")],
  needs='two maps that differ by little',
  breaks='different maps compare equal',
  demo=STD + """
assert Transform().translate(1000, 0) != Transform().translate(1000.005, 0)
"""),
dict(id='c01-default-imports', property='C01',
  edits=[(M, "        self.imports = [] + self.DEFAULT_IMPORTS\n", "        self.imports = self.DEFAULT_IMPORTS\n")],
  needs='dumping a client shape class that asks for imports of its own',
  breaks='the imports appear in every later dump',
  demo=STD + """
class My(ElemRectangle):
    ELEM_IMPORTS = ['from mine import My']
My('m', pb, Point(0, 0), Point(1, 1)).dump(DumpContext())
assert 'mine' not in rect('r').dump(DumpContext()).output()
"""),
dict(id='c01-interpolate-sort', property='C01',
  edits=[(A, "        time, value = zip(*curve)\n", "        curve.sort()\n        time, value = zip(*curve)\n")],
  needs='the list handed to interpolate is not in order of time, or is a tuple',
  breaks="the caller's list is reordered",
  demo=STD + """
from x7.geom.anim import Animation
c = [(1, 5), (0, 2)]
Animation.interpolate(c)
assert c == [(1, 5), (0, 2)]
"""),
dict(id='c22-fit-flat', property='C22',
  edits=[(T, "            scale = min(target.width / start.width, target.height / start.height)\n            self.translate(-start.xl, -start.yl)\n", "            self.translate(-start.xl, -start.yl)\n            scale = min(target.width / start.width, target.height / start.height)\n")],
  needs='fitting a flat box with its aspect kept',
  breaks='the refused fit leaves the map moved',
  demo=STD + """
t = Transform().translate(1, 2)
try:
    t.scale_bbox(BBox(3, 4, 3, 9), BBox(0, 0, 1, 1), True)
except ZeroDivisionError:
    pass
assert t == Transform().translate(1, 2)
"""),
dict(id='c13-holes-group-once', property='C13',
  edits=[(M, "        all_elems = [self.outside] + self.inside\n", "        all_elems = [self.outside] + [e for e in self.inside if e is not self.outside and e.xform == Transform() or True][:len(self.inside)]\n")] if False else
        [(M, "        return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]\n", "        return [c.transform(self.xform) for e in all_elems for c in e.as_curves()[:1]]\n")],
  needs='a hole that is a group of several shapes, converted to curves',
  breaks='only the first shape of the group is converted',
  demo=STD + """
pf = PenBrush('black', 'red')
g = Group('g', pb, elems=[rect('a', 2, 2), rect('b', 6, 6)])
h = ElemWithHoles('h', pf, ElemRectangle('o', pf, Point(0, 0), Point(20, 20)), [g])
assert len(h.as_curves()) == 3
"""),
dict(id='c08-contains-corner', property='C08',
  edits=[(G, "        return self.xl <= other.xl and other.xh <= self.xh and self.yl <= other.yl and other.yh <= self.yh\n", "        return other.is_empty and self.contains_pt(other.center) or \\\n            self.xl <= other.xl and other.xh <= self.xh and self.yl <= other.yl and other.yh <= self.yh\n")],
  needs='a flat box longer than the box, through its inside',
  breaks='a box is said to contain a line that sticks out of it',
  demo=STD + """
assert not BBox(0, 0, 4, 4).contains(BBox(-5, 2, 9, 2))
"""),
dict(id='c03-restore-xform-inplace', property='C03',
  edits=[(M, "        self.closed = other.closed\n        self.xform = other.xform.copy()\n\n    @abstractmethod\n    def transform", "        self.closed = other.closed\n        self.xform.set_matrix(other.xform)\n\n    @abstractmethod\n    def transform")],
  needs='a shape whose transform object is used elsewhere as well (given to two shapes)',
  breaks='restoring one shape moves the other',
  demo=STD + """
x = Transform().translate(1, 0)
a, b = rect('a', xform=x), rect('b', xform=x)
s = a.copy()
s.xform.translate(5, 0)
a.restore(s)
assert b.xform == Transform().translate(1, 0)
"""),
dict(id='c20-none', property='C12',
  edits=[(T, "        xy = self.transform(pt.x, pt.y)\n        return Point(*xy) if as_pt else xy\n", "        xy = self.transform(*pt)\n        return Point(*xy) if as_pt else tuple(round(v, 12) for v in xy)\n")],
  needs='pairs asked back for tiny coordinates',
  breaks='coordinates asked back as pairs are rounded',
  demo=STD + """
assert Transform().transform_pt(Point(1.5e-12, 0), False)[0] == 1.5e-12
"""),
]
