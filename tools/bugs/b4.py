G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c05-sub-vrel', property='C05',
  edits=[(G, "        kind = Point if isinstance(other, Vector) else Vector\n", "        kind = Point if type(other) is Vector else Vector\n")],
  needs='a point minus a vector between two points',
  breaks='point minus point-to-point vector gives a vector instead of a point',
  demo=STD + """
v = VectorRelative(Point(3, 4), Point(1, 1))
assert Point(5, 5) - v == Point(3, 2), Point(5, 5) - v
"""),
dict(id='c05-quarter-turns', property='C05',
  edits=[(G, "        rads = math.radians(degrees)\n        cos_a = math.cos(rads)\n        sin_a = math.sin(rads)\n", """        if int(degrees) % 90 == 0:
            # Exact quarter turns
            cos_a, sin_a = ((1, 0), (0, 1), (-1, 0), (0, -1))[int(degrees) // 90 % 4]
        else:
            rads = math.radians(degrees)
            cos_a = math.cos(rads)
            sin_a = math.sin(rads)
""")],
  needs='rotating by a fraction of a degree past a quarter turn, e.g. 90.5',
  breaks='rotation by 90.5 degrees rotates by 90',
  demo=STD + """
import math
v = Vector(10, 0).rotate(90.5)
assert abs(v.x + 10 * math.sin(math.radians(0.5))) < 1e-9, v
"""),
dict(id='c06-vrel-memo', property='C06',
  edits=[(G, "    def xy(self) -> tuple:\n        return (self._p1 - self._p2).xy()\n", """    def xy(self) -> tuple:
        # Only recompute when the head has moved
        head = self._p1.xy()
        if getattr(self, '_memo_key', None) != head:
            self._memo_key = head
            self._memo = (self._p1 - self._p2).xy()
        return self._memo
""")],
  needs='a point-to-point vector read, then only its tail moved, then read again',
  breaks='the vector does not follow its tail',
  demo=STD + """
a, b = Point(3, 4), Point(1, 1)
v = VectorRelative(a, b)
assert v.xy() == (2, 3)
b.setxy(0, 0)
assert v.xy() == (3, 4), v.xy()
"""),
dict(id='c07-shrink-past', property='C07',
  edits=[(G, "        expand_x = max(expand_x, -self.width/2)\n        expand_y = max(expand_y, -self.height/2)\n        return BBox(self.xl-expand_x, self.yl-expand_y, self.xh+expand_x, self.yh+expand_y)",
   """        limit = max(self.width, self.height)/2
        expand_x = max(expand_x, -limit)
        expand_y = max(expand_y, -limit)
        return BBox(self.xl-expand_x, self.yl-expand_y, self.xh+expand_x, self.yh+expand_y)""")],
  needs='shrinking a box that is not square by more than half its shorter side',
  breaks='the box grows in its shorter direction instead of collapsing to the middle',
  demo=STD + """
assert BBox(0, 0, 10, 4).expand(-4) == BBox(4, 2, 6, 2), BBox(0, 0, 10, 4).expand(-4)
"""),
dict(id='c09-fit-same-size', property='C09',
  edits=[(T, "        if keep_aspect:\n            # Retain aspect ratio", "        if start.size() == target.size():\n            return self     # Same size, nothing to fit\n        if keep_aspect:\n            # Retain aspect ratio")],
  needs='fitting a box onto a box of the same size elsewhere',
  breaks='the box is not moved onto its target',
  demo=STD + """
p = Transform().scale_bbox(BBox(0, 0, 1, 2), BBox(5, 5, 6, 7)).transform(0, 0)
assert tuple(p) == (5, 5), p
"""),
dict(id='c09-rotate-about-origin', property='C09',
  edits=[(T, "        xform = Transform().translate(*-center).rotate(angle).translate(*center)\n        self._mat.pre_dot_eq(xform._mat.ndmat)\n",
     "        if self == Transform():\n            xform = Transform().translate(*-center).rotate_ccw(-angle).translate(*center)\n            self._mat.pre_dot_eq(xform._mat.ndmat)\n        else:\n            xform = Transform().translate(*-center).rotate(angle).translate(*center)\n            self._mat.post_dot_eq(xform._mat.ndmat)\n")],
  needs='rotating about a point a transform that already holds something',
  breaks='the rotation is applied before the transform, not after it',
  demo=STD + """
t = Transform().translate(3, 4).rotate_about(90, Point(3, 4))
p = t.transform(0, 0)
assert abs(p[0] - 3) < 1e-9 and abs(p[1] - 4) < 1e-9, p
"""),
dict(id='c11-exit-keeps', property='C11',
  edits=[(T, "    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.pop()\n", "    def __exit__(self, exc_type, exc_val, exc_tb):\n        if exc_type is None or issubclass(exc_type, Exception):\n            self.pop()\n")],
  needs='a walk over shapes that is abandoned midway (generator closed) or interrupted with ctrl-C',
  breaks='the pushed matrix stays pushed',
  demo=STD + """
t = Transform()
try:
    with t.push().translate(1, 2):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert t == Transform() and not t.stack, t
"""),
dict(id='c22-singular-swallowed', property='C22',
  edits=[(T, "    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.pop()\n", "    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.pop()\n        return exc_type is EmptyStackError      # Already unbalanced, nothing to restore\n")],
  needs='an unbalanced pop inside a with block over a transform',
  breaks='the refusal is silently swallowed',
  demo=STD + """
t, u = Transform(), Transform()
try:
    with t.push():
        u.pop()
except EmptyStackError:
    pass
else:
    assert 0, 'unbalanced pop not reported'
"""),
dict(id='c10-push-view', property='C10',
  edits=[(T, "        self.ndmat = np.identity(3) if mat3x3 is None else np.array(mat3x3, dtype=float)", "        self.ndmat = np.identity(3) if mat3x3 is None else np.asarray(mat3x3, dtype=float)"),
         (T, "        xform = Transform().translate(*-center).rotate(angle).translate(*center)\n        self._mat.pre_dot_eq(xform._mat.ndmat)\n        self._inverse = None\n        return self\n",
             "        xform = Transform().translate(*-center).rotate(angle).translate(*center)\n        self._mat.ndmat[:] = np.dot(xform._mat.ndmat, self._mat.ndmat)\n        self._inverse = None\n        return self\n")],
  needs='push, rotate about a point, pop (or a copy rotated about a point)',
  breaks='the pushed matrix, or the original of a copy, is rotated too',
  demo=STD + """
t = Transform().translate(1, 2)
t.push()
t.rotate_about(90, Point(5, 5))
t.pop()
assert t == Transform().translate(1, 2), t
"""),
dict(id='c12-mixed-list', property='C12',
  edits=[(T, "        return np.array([(x, y, 1) for x, y in points]).T\n", "        if points and isinstance(points[0], BasePoint):\n            return np.array([(p.x, p.y, 1) for p in points if isinstance(p, BasePoint)]).T\n        return np.array([(x, y, 1) for x, y in points]).T\n")],
  needs='a list of points with some given as pairs, starting with a point',
  breaks='the pairs are dropped',
  demo=STD + """
r = Transform().transform_pts([Point(1, 2), (3, 4)])
assert len(r) == 2, r
"""),
dict(id='c12-int-points', property='C12',
  edits=[(T, "        return np.array([(x, y, 1)]).T\n", "        return np.array([(x, y, 1)], dtype=type(x)).T\n")],
  needs='a single point with an integer x and a fractional y',
  breaks='the y coordinate is truncated',
  demo=STD + """
r = Transform().transform(1, 2.5)
assert tuple(r) == (1, 2.5), r
"""),
dict(id='c14-straight-even', property='C14',
  edits=[(B, "    path = [(ax, ay)]\n    # steps = 10\n", "    if (ax, ay) == (bx, by) and (cx, cy) == (dx, dy):\n        # Straight line, no need for the full polynomial\n        path = [(ax + (dx-ax)*ti/steps, ay + (dy-ay)*ti/steps) for ti in range(steps+1)]\n        return path if as_xy else list(xy_flatten(path))\n\n    path = [(ax, ay)]\n    # steps = 10\n")],
  needs='a segment both of whose handles are empty',
  breaks='points along a straight segment are not where the cubic has them at that parameter',
  demo=STD + """
from x7.geom.bezier import bez
p = bez([Point(0, 0), Point(0, 0), Point(8, 0), Point(8, 0)], steps=4, as_xy=True)
assert abs(p[1][0] - 8 * (3*(1/16)*(3/4) + 1/64)) < 1e-9, p
"""),
dict(id='c14-path-degenerate', property='C14',
  edits=[(B, "        curve_pts = transform.transform_pts([p.c, p.r, q.l, q.c])\n", "        if p.c == q.c:\n            continue        # Nothing to draw\n        curve_pts = transform.transform_pts([p.c, p.r, q.l, q.c])\n")],
  needs='a loop: a segment that starts and ends at the same point with handles out',
  breaks='loop segments are left out of the path',
  demo=STD + """
from x7.geom.bezier import bez_path
cps = [ControlPoint(Point(0, 0), Vector(-1, -1), Vector(5, 5))]
pts = bez_path(Transform(), cps, True, steps=4)
assert len(pts) == 10, pts
"""),
dict(id='c17-xform-near', property='C17',
  edits=[(M, "        if self.xform != Transform():\n", "        if str(self.xform) != str(Transform()):\n")],
  needs='a shape whose own transform differs from the identity by less than 0.005',
  breaks='its transform is left out of the dump',
  demo=STD + """
g = Group('g', pb)
g.add('r', rect('r', xform=Transform().translate(0.001, 0)))
ns = {}
exec('from x7.geom.geom import *; from x7.geom.model import *; from x7.geom.colors import *; from x7.geom.transform import *', ns)
e = eval(rect('r', xform=Transform().translate(0.001, 0)).dump(DumpContext(use_vars=False)).output(just_lines=True), ns)
assert e.xform == Transform().translate(0.001, 0), e.xform
"""),
dict(id='c24-cps-hidden', property='C24',
  edits=[(M, """    def control_paths(self, dc) -> List[ControlPath]:
        if self.hidden:
            return []
        paths = []
        with self.draw_space(dc):
            for name, elem in self.elems.items():
                paths.extend(elem.control_paths(dc))
        return paths
""", """    def control_paths(self, dc) -> List[ControlPath]:
        with self.draw_space(dc):
            return [path for elem in self.elems.values() for path in elem.control_paths(dc)]
""")],
  needs='a hidden group drawn with its control points shown',
  breaks='the control points of a hidden group are drawn',
  demo=STD + """
g = Group('g', pb)
g.add('r', rect('r'))
g.hidden = True
assert g.control_paths(DrawingContext(None, None)) == []
"""),
dict(id='c24-line-only-open', property='C24',
  edits=[(M, "            elif do_outline:\n                draw.draw.line(p, fill", "            elif do_outline and len(p) > 2:\n                draw.draw.line(p, fill")],
  needs='a path of just two points (one step per curve), outline only',
  breaks='straight two-point paths are not drawn',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (40, 40), 'white'), None)
dc.points_per_curve = 1
ElemCurve('c', pb, [ControlPoint(Point(5, 5), Vector(), Vector()), ControlPoint(Point(30, 5), Vector(), Vector())], closed=False).draw(dc)
assert dc.layer.getbbox() is not None
"""),
dict(id='c24-width-scale-min', property='C24',
  edits=[(M, "                width = max(1, round(path.penbrush.stroke_width(draw.matrix)))\n            else:", "                width = max(1, round(self.penbrush.stroke_width(draw.matrix) if self.penbrush.stroked else 1))\n            else:")],
  needs='a group drawn whose own pen differs from the pens of its members',
  breaks='members are outlined with the width of the group pen',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (40, 40), 'white'), None)
g = Group('g', PenBrush('black', None))
g.add('r', ElemRectangle('r', PenBrush(('black', 6)), Point(10, 10), Point(30, 30)))
g.draw(dc)
assert dc.layer.getbbox()[0] <= 8, dc.layer.getbbox()
"""),
dict(id='c27-parallel-tol', property='C27',
  edits=[(G, "        return self.direction.cross(other.direction) == 0\n", "        return abs(self.direction.cross(other.direction)) < 1e-6\n")],
  needs='short crossing segments (a thousandth long)',
  breaks='short segments that cross are refused as parallel',
  demo=STD + """
a = Line(Point(0, 0), Vector(0.0005, 0.0005)); b = Line(Point(0, 0.0005), Vector(0.0005, -0.0005))
r = a.segment_intersection(b)
assert r and r[0].close(Point(0.00025, 0.00025), 1e-9)
"""),
dict(id='c28-norm-per-axis', property='C28',
  edits=[(V, "        mags = np.sqrt(np.add(np.multiply(self.vx, self.vx), np.multiply(self.vy, self.vy)))\n        max_mag = np.amax(mags)\n", "        max_mag = np.hypot(np.amax(np.abs(self.vx)), np.amax(np.abs(self.vy)))\n")],
  needs='a field whose longest x part and longest y part belong to different vectors',
  breaks='the longest vector of a normalised field is shorter than one',
  demo=STD + """
import numpy as np
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 1), 2)
f = VectorField(m, np.array([[3., 0], [0, 0]]), np.array([[0., 0], [0, 4.]])).normalized()
assert abs(f.vy[1][1] - 1) < 1e-9, f.vy
"""),
dict(id='c28-smooth-inplace', property='C28',
  edits=[(V, "        vx_smoothed = np.zeros(shape)\n        vy_smoothed = np.zeros(shape)\n", "        vx_smoothed = np.zeros(shape)\n        vy_smoothed = self.vy.copy()\n"),
         (V, "                        v += self.vy[x, y]\n", "                        v += vy_smoothed[x, y]\n")],
  needs='smoothing a field with vertical parts in neighbouring cells',
  breaks='vertical parts are smeared across the whole field in scan order',
  demo=STD + """
import numpy as np
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 1), 7)
z = np.zeros((7, 7)); z[0, 0] = 1.
f = VectorField(m, z.copy(), z.copy()).smoothed()
assert abs(f.vx[4][4] - f.vy[4][4]) < 1e-12 and f.vx[1][1] == f.vy[1][1], (f.vx, f.vy)
"""),
dict(id='c16-arc-steps-none', property='C16',
  edits=[(U, "    steps = int(abs(ea-sa)+1) if steps < 0 else steps\n", "    steps = int(abs((ea-sa) % 360)+1) if steps < 0 else steps\n")],
  needs='direction none with more than a whole turn and no step count',
  breaks='an arc of several turns has only the points of the rest',
  demo=STUB + """
from x7.geom.utils import *
assert len(arc(1, 0, 720, direction='none')) == 721, len(arc(1, 0, 720, direction='none'))
"""),
dict(id='c16-min-rotation', property='C16',
  edits=[(U, "    return (target_degrees - source_degrees + 180) % 360 - 180\n", "    diff = target_degrees % 360 - source_degrees % 360\n    return diff - 360 if diff > 180 else diff\n")],
  needs='a target just past zero and a source just before 360, e.g. 10 from 350',
  breaks='the rotation goes the long way round backwards',
  demo=STUB + """
from x7.geom.utils import *
assert min_rotation(10, 350) == 20, min_rotation(10, 350)
assert min_rotation(20, 10) == 10 and min_rotation(-340, 10) == 10 and min_rotation(20, 370) == 10
"""),
dict(id='c16-arc2p-side', property='C16',
  edits=[(U, "    clv = (v.normal()*side).unit()\n", "    clv = v.normal().unit()*side\n")],
  needs='a side given as any number other than 1 or -1',
  breaks='the centre of the arc is too far off',
  demo=STUB + """
from x7.geom.utils import *
from x7.geom.geom import *
import math
c = arc2p(5, Point(0, 0), Point(6, 0), side=2)[1]
assert abs(math.hypot(*c) - 5) < 1e-9, c
"""),
dict(id='c16-translate-alias', property='C16',
  edits=[(U, "    dxy = Vector(*dxy.xy())\n    if as_pt:\n        return [p + dxy for p in path]\n", "    dxy = Vector(*dxy.xy())\n    if not dxy:\n        return path if as_pt else path_to_xy(path)\n    if as_pt:\n        return [p + dxy for p in path]\n")],
  needs='translating by nothing, as points, then moving points of the result',
  breaks='the result is the list of points that was given',
  demo=STUB + """
from x7.geom.utils import *
from x7.geom.geom import *
p = Point(1, 2)
q = path_translate([p], Vector(0, 0), as_pt=True)
q[0].setxy(5, 5)
q.append(p)
assert p == Point(1, 2), p
"""),
dict(id='c18-linear-skip', property='C18',
  edits=[(A, "    def update(self, t):\n        orig_x, orig_y = self.orig.xy()\n", "    def update(self, t):\n        if t == getattr(self, '_last_t', None):\n            return\n        self._last_t = t\n        orig_x, orig_y = self.orig.xy()\n")],
  needs='updating to the same time twice with the point (or its target) moved in between',
  breaks='the point stays where it was moved',
  demo=STD + """
from x7.geom.anim import *
p = Point(0, 0)
a = AnimationLinear(p, Point(2, 4))
a.update(0.5); p.setxy(9, 9); a.update(0.5)
assert p == Point(1, 2), p
"""),
dict(id='c18-multi-sorted', property='C18',
  edits=[(A, "        idx = bisect.bisect_right(self.all_steps, t)\n        if idx == 0:", "        idx = bisect.bisect_left(self.all_steps, t)\n        if idx == 0:")],
  needs='two targets at the same time (a jump) and that very time asked for',
  breaks='at the time of the jump the first of the two targets is shown',
  demo=STD + """
from x7.geom.anim import *
g = Group('g', pb)
def one(n, y):
    return ElemCurve(n, pb, [ControlPoint(Point(0, y), Vector(), Vector()), ControlPoint(Point(5, y), Vector(), Vector())])
src = one('a', 0)
g.add('a', src)
m = MorphMultiStep(g, src, [(0.5, one('b', 1)), (0.5, one('c', 2)), (1.0, one('d', 3))], lambda t: t, force=False)
m.update(0.5)
assert m.morph.control_points[0].c.y == 2, m.morph.control_points
"""),
dict(id='c18-hide-restore', property='C18',
  edits=[(A, "        if t is None:\n            # Hidden hack--just move off-screen\n            for morph in morph_cp:\n                morph.c.setxy(1e6, 1e6)\n                morph.dl.setxy(0, 0)\n                morph.dr.setxy(0, 0)\n            return\n",
     "        if t is None:\n            self.morph.hidden = True\n            for morph in morph_cp:\n                morph.c.setxy(1e6, 1e6)\n            return\n")],
  needs='a morph that hides at some time: the shape is looked at again at a later one',
  breaks='handles stay behind while hidden and the shape never comes back',
  demo=STD + """
from x7.geom.anim import *
g = Group('g', pb)
def one(n, y):
    return ElemCurve(n, pb, [ControlPoint(Point(0, y), Vector(1, 1), Vector(2, 2)), ControlPoint(Point(5, y), Vector(), Vector())])
src = one('a', 0)
g.add('a', src)
m = Morph(g, src, one('b', 1), lambda t: None if t < 0 else t)
m.update(-1)
m.update(0.5)
assert m.morph.hidden == src.hidden, m.morph.hidden
"""),
dict(id='c18-gen-target-fixed', property='C18',
  edits=[(A, "        self.target = target\n        self.frequency = frequency\n", "        self.target = target.fixed()\n        self.frequency = frequency\n")],
  needs='a sinusoidal animation towards a point that moves itself',
  breaks='the animation ignores where its target is now',
  demo=STD + """
from x7.geom.anim import *
p, q = Point(0, 0), Point(2, 4)
a = AnimationSinusoidal(p, q)
q.setxy(10, 20)
a.update(0.5)
assert p.close(Point(10, 20), 1e-6), p
"""),
dict(id='c23-width-zero-replace', property='C23',
  edits=[(C, "        if width is not None and self.pen:\n            pen = Pen(self.pen.brush, width)\n", "        if width and self.pen:\n            pen = Pen(self.pen.brush, width)\n")],
  needs='replacing the width by zero (hairline)',
  breaks='the old width is kept',
  demo=STD + """
assert PenBrush(('red', 5)).replace(width=0).pen.width == 0
"""),
dict(id='c23-make-prod-edge', property='C23',
  edits=[(C, "                edge_clear=PenBrush(edge_pen, transparent),\n            )", "                edge_clear=PenBrush(edge_pen, None if fill == transparent else transparent),\n            )")],
  needs='production pens with equal fill and transparent colours (the default)',
  breaks='edge_clear shapes are not filled at all',
  demo=STD + """
pbs = PensByShape.make(draft=False)
assert pbs['edge_clear'].filled
"""),
dict(id='c25-eq-foreign', property='C25',
  edits=[(G, "        return type(self) is type(other) and self._x == other._x and self._y == other._y\n\n    def close(self, other, max_delta=1e-11):\n        return (self - other).length() < max_delta\n\n    def copy(self) -> 'Vector'",
           "        return type(self) is type(other) and self._x == other._x and self._y == other._y\n\n    def close(self, other, max_delta=1e-11):\n        return abs(self._x - other._x) < max_delta and abs(self._y - other._y) < max_delta\n\n    def copy(self) -> 'Vector'")],
  needs='asking whether a plain vector is close to a vector between points',
  breaks='close() raises AttributeError for point-to-point vectors',
  demo=STD + """
assert Vector(1, 1).close(VectorRelative(Point(2, 2), Point(1, 1)))
"""),
dict(id='c08-touch-corner', property='C08',
  edits=[(G, "        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:\n            return BBox(None)\n", "        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:\n            return BBox(None)\n        if (self.xl == other.xh or self.xh == other.xl) and (self.yl == other.yh or self.yh == other.yl):\n            return BBox(None)       # Only a corner in common\n")],
  needs='boxes that have just a corner in common',
  breaks='their intersection is no box instead of the corner',
  demo=STD + """
assert BBox(0, 0, 1, 1).intersection(BBox(1, 1, 2, 2)) == BBox(1, 1, 1, 1)
"""),
dict(id='c08-union-empty', property='C08',
  edits=[(G, "        if other.xl is None:\n            return self.copy()\n        if self.xl is None:\n            return other.copy()\n        return BBox(\n", "        if other.is_empty:\n            return self.copy()\n        if self.is_empty:\n            return other.copy()\n        return BBox(\n")],
  needs='the union with a box of no area (a point or a straight line)',
  breaks='flat boxes are left out of unions',
  demo=STD + """
assert BBox(0, 0, 1, 1) + BBox(3, 3, 3, 5) == BBox(0, 0, 3, 5)
"""),
dict(id='c29-half-open', property='C29',
  edits=[(B, "            l, m, r = bez_split(a, b, (t_ix-t)/(1-t))\n", "            l, m, r = bez_split(a, b, t_ix-t)\n")],
  needs='a segment that is crossed twice',
  breaks='the second crossing is cut at the wrong place (or refused)',
  demo=STD + """
from x7.geom.bezier import bez_self_intersect
cps = [ControlPoint(Point(0, 0), Vector(0, 1), Vector(0, -1)), ControlPoint(Point(0.5, 1), Vector(-.1, 0), Vector(0.1, 0)),
       ControlPoint(Point(1, -1), Vector(-0.2, 0), Vector(0.2, 0)), ControlPoint(Point(1.5, 1), Vector(-.1, 0), Vector(0.1, 0)),
       ControlPoint(Point(2, 0), Vector(0, -1), Vector(0, 1))]
assert len(bez_self_intersect(cps)) > 2
"""),
dict(id='c30-crop-zero', property='C30',
  edits=[(A, "        if bbox:\n            images = [im.crop(box=bbox) for im in images]\n", "        if bbox and all(bbox):\n            images = [im.crop(box=bbox) for im in images]\n")],
  needs='cropping frames to a box that starts at the left or upper edge',
  breaks='the frames are not cropped',
  demo=STD + """
from x7.geom.anim import *
from PIL import Image
b = Builder(Image.new('RGBA', (8, 8)), Transform(), Group('g', pb))
r = b.scaled(1, bbox=(0, 0, 4, 4), images=[Image.new('RGBA', (8, 8))])
assert r[0].size == (4, 4)
"""),
dict(id='c30-max-bbox-first', property='C30',
  edits=[(A, "        bb = images[0].getbbox()\n        for im in images[1:]:\n            bb = bbox_max(bb, im.getbbox())\n", "        bb = images[0].getbbox()\n        for im in images[1:]:\n            if im.size != images[0].size or im.getbbox() != images[0].getbbox():\n                bb = bbox_max(images[0].getbbox(), im.getbbox())\n")],
  needs='three frames with content in different places',
  breaks='only the first and last frame count for the box',
  demo=STD + """
from x7.geom.anim import *
from PIL import Image
def im(x):
    i = Image.new('RGBA', (20, 20)); i.putpixel((x, x), (1, 2, 3, 255)); return i
b = Builder(Image.new('RGBA', (8, 8)), Transform(), Group('g', pb))
assert b.max_bbox([im(5), im(15), im(7)]) == (5, 5, 16, 16)
"""),
dict(id='c30-step-time', property='C30',
  edits=[(AS, "        step_size = (self.t_high - self.t_low) / self.steps\n        for step in range(self.steps+1):\n", "        step_size = (self.t_high - self.t_low) / self.steps\n        count = len(self.images)\n        for step in range(count, self.steps+1):\n")],
  needs='animating again (or after adding a title frame by hand)',
  breaks='frames are left out',
  demo=STD + """
from x7.geom.anim_simple import SimpleAnimation
ts = []
sa = SimpleAnimation(lambda dc, t: ts.append(t), image_size=(4, 4), steps=2)
with sa.next_step():
    pass
sa.animate()
assert ts == [0, 0.5, 1], ts
"""),
dict(id='c31-kind-unchecked', property='C31',
  edits=[(S, "        if all(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):\n", "        if all(n.close(o) for n, o in zip(vals_n[:3], vals_o[:3])):\n")],
  needs='control points that differ in their kind alone',
  breaks='a mismatch of kind is explained as close enough',
  demo=STD + """
import unittest
from x7.geom.testing import *
tc = TestCaseGeomExtended()
m = ExtendedMatcherControlPoint(tc)
a = ControlPoint(Point(1, 2), Vector(), Vector(), 'sharp'); b = ControlPoint(Point(1, 2), Vector(), Vector(), 'smooth')
assert m.explain_mismatch(a, b)[0] is False
"""),
dict(id='c31-depth-lost', property='C31',
  edits=[(S, "                for e in data:\n                    e.dump(dc)\n                    dc.add_comma()\n", "                for e in data:\n                    e.dump(dc)\n                    if e is not data[-1]:\n                        dc.add_comma()\n")],
  needs='a list that has the same shape twice, at the end and before',
  breaks='the text does not load',
  demo=STD + """
from x7.geom.testing import *
from x7.testing import support
import inspect
r = rect('r')
class P: pass
px = PicklerExtensionGeom.__new__(PicklerExtensionGeom)
PicklerExtensionGeom.__init__(px, support.Pickler.__new__(support.Pickler))
txt = px.do_pickle([r, r, rect('s'), r], '')
eval(txt.replace(chr(10), ' '), px.methods())
"""),
dict(id='c21-lookup-deep', property='C21',
  edits=[(M, "        if head not in self.elems:\n", "        if head not in self.elems:\n            for group in self.elems.values():\n                if isinstance(group, Group) and head in group.elems:\n                    return group.lookup(tag)\n")],
  needs='looking up the name of a shape that lies one group further down',
  breaks='an unknown path finds a shape instead of being refused',
  demo=STD + """
g, h = Group('g', pb), Group('h', pb)
h.add('r', rect('r')); g.add('h', h)
try:
    g.lookup('r')
except KeyError:
    pass
else:
    assert 0, 'found'
"""),
dict(id='c21-number-taken', property='C21',
  edits=[(M, "                num = 0\n                while", "                num = sum(1 for n in self.elems if n.startswith(name + '#'))\n                while")],
  needs='numbered names of which a lower one is free again (rect#1 but no rect#0)',
  breaks='not the first free number is taken',
  demo=STD + """
g = Group('g', pb, elems=[rect('r'), rect('rectangle#1')])
e = rect('r'); g.add('r', e)
assert e.name == 'rectangle#0', e.name
"""),
dict(id='c01-display-sorts', property='C01',
  edits=[(M, "        for name, elem in sorted(self.elems.items()):\n            elem.display(detail=detail, prefix=prefix)", "        self.elems = dict(sorted(self.elems.items()))\n        for elem in self.elems.values():\n            elem.display(detail=detail, prefix=prefix)")],
  needs='displaying a group whose members were not added in alphabetical order',
  breaks='displaying changes the drawing order',
  demo=STD + """
g = Group('g', pb, elems=[rect('b'), rect('a')])
g.display()
assert list(g.elems) == ['b', 'a'], g.elems
"""),
dict(id='c27-shift-inplace', property='C27',
  edits=[(G, "    def __sub__(self, vector: 'Vector') -> 'Line':\n        return Line(self.origin - vector, self.direction)", "    def __sub__(self, vector: 'Vector') -> 'Line':\n        return self + -vector if vector else self")],
  needs='shifting a line back by nothing, then moving one of both',
  breaks='the shifted line is the line itself',
  demo=STD + """
l = Line(Point(0, 0), Vector(1, 1))
m = l - Vector()
m.origin = Point(3, 3)
assert l.origin == Point(0, 0)
"""),
dict(id='c03-holes-inside', property='C03',
  edits=[(M, "        self.outside = other.outside.copy()\n        self.inside = [e.copy() for e in other.inside]\n", "        self.outside = other.outside.copy()\n        if self.inside != other.inside:\n            self.inside = other.inside[:]\n")],
  needs='restoring a shape with holes after its holes changed, then changing a hole again',
  breaks='the saved copy has the same holes as the restored shape',
  demo=STD + """
h = ElemWithHoles('h', pb, rect('o'), [rect('i')])
s = h.copy()
h.inside[0].p1.setxy(9, 9)
h.restore(s)
h.inside[0].p1.setxy(7, 7)
assert s.inside[0].p1 == Point(0, 0), s.inside[0].p1
"""),
dict(id='c22-restore-length', property='C22',
  edits=[(M, "        if len(self.control_points) == len(other.control_points):\n            super().restore(other)\n            for cp, ocp", "        super().restore(other)\n        if len(self.control_points) == len(other.control_points):\n            for cp, ocp")],
  needs='restoring a curve from one with another number of points',
  breaks='name, pen and transform are taken over although the restore is refused',
  demo=STD + """
a, b = cv('a', (0, 0), (1, 1)), cv('b', (0, 0))
try:
    a.restore(b)
except Exception:
    pass
assert a.name == 'a', a.name
"""),
dict(id='c22-point-name', property='C22',
  edits=[(M, "        assert name not in self.points\n        assert '.' not in name\n        self.points[name] = pt\n        pt.name = name\n        return pt\n", "        pt.name = name\n        assert '.' not in name\n        assert self.points.setdefault(name, pt) is pt\n        return pt\n")],
  needs='adding a point under a taken name',
  breaks='the refused point is renamed',
  demo=STD + """
g = Group('g', pb)
g.add_pt('a', Point(0, 0))
p = Point(1, 1, 'mine')
try:
    g.add_pt('a', p)
except AssertionError:
    pass
assert p.name == 'mine', p.name
"""),
dict(id='c06-corner-shared', property='C06',
  edits=[(M, "        self.p1 = p1.fixed()\n        self.p2 = p2.fixed()\n", "        self.p1 = p1 if type(p1) is Point and not p1.name else p1.fixed()\n        self.p2 = p2 if type(p2) is Point and not p2.name else p2.fixed()\n")],
  needs='moving a plain point after a shape was made from it',
  breaks='the corner of the shape moves along',
  demo=STD + """
p = Point(0, 0)
r = ElemRectangle('r', pb, p, Point(1, 1))
p.setxy(5, 5)
assert r.p1 == Point(0, 0), r.p1
"""),
dict(id='c15-limit-sign', property='C15',
  edits=[(M, "                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)\n", "                scale = min(scale, cls.OFFSET_PT_LIMIT)\n")],
  needs='offsetting a very sharp corner by a negative amount',
  breaks='the corner is not limited and shoots off',
  demo=STD + """
p = ElemCurve.offset_pt(Vector(1, 0.001), Point(0, 0), Vector(1, -0.001), 1)
q = ElemCurve.offset_pt(Vector(1, 0.001), Point(0, 0), Vector(1, -0.001), -1)
assert p.v.length() <= 100.001 and q.v.length() <= 100.001, (p, q)
"""),
dict(id='c31-and-axes', property='C31',
  edits=[(S, "        msg = []\n        if almost_x is not True:\n            msg.append('x: ' + almost_x)\n        if almost_y is not True:\n            msg.append('y: ' + almost_y)\n        return ', '.join(msg) if msg else True\n", "        if almost_x is True or almost_y is True:\n            return almost_x and almost_y\n        return 'x: %s, y: %s' % (almost_x, almost_y)\n")],
  needs='points that differ only along x',
  breaks='they are accepted as almost equal',
  demo=STD + """
from x7.geom.testing import *
tc = TestCaseGeomExtended()
m = ExtendedMatcherPoint(tc)
assert m.almost_equal(Point(1, 2), Point(5, 2), places=3) is not True
"""),
]
