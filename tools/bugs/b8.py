G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
# ---- C05
dict(id='c05-dot-self', property='C05',
  edits=[(G, '''        """Dot product of this Vector with another Vector"""
''', '''        """Dot product of this Vector with another Vector"""
        if other is self:
            return self.length()
''')],
  needs='the dot product of a vector with itself, the same object', breaks='v.dot(v) is the length, not its square',
  demo=STD + """
v = Vector(3, 4)
assert v.dot(v) == 25
"""),
dict(id='c05-int-division', property='C05',
  edits=[(G, '''    def __truediv__(self, other) -> 'Vector':
        x, y = self.xy()
''', '''    def __truediv__(self, other) -> 'Vector':
        x, y = self.xy()
        if isinstance(other, int) and isinstance(x, int) and isinstance(y, int):
            return Vector(x // other, y // other)
''')],
  needs='a whole-number vector divided by a whole number that does not divide it', breaks='the quotient is rounded down',
  demo=STD + """
assert Vector(3, 5) / 2 == Vector(1.5, 2.5)
"""),
dict(id='c05-angle-down', property='C05',
  edits=[(G, '''        return math.degrees(math.atan2(self.y, self.x))''', '''        if self.x == 0 and self.y:
            return 90.0
        return math.degrees(math.atan2(self.y, self.x))''')],
  needs='the angle of a vector pointing straight down', breaks='is +90 like one pointing up',
  demo=STD + """
assert Vector(0, -2).angle() == -90
"""),
dict(id='c05-vrel-bool', property='C05',
  edits=[(G, '''        """Return True if x or y is non-zero"""
        x, y = self.xy()
        return bool(x or y)''', '''        """Return True if x or y is non-zero"""
        return not self._p1 == self._p2''')],
  needs='a point-to-point vector between two points of different kind or name at one place', breaks='the zero vector counts as non-zero',
  demo=STD + """
assert not VectorRelative(Point(1, 2), PointRelative(0, 0, Point(1, 2)))
assert not VectorRelative(Point(1, 2, 'a'), Point(1, 2, 'b'))
"""),
dict(id='c05-rotate-back', property='C05',
  edits=[(G, '''        rads = math.radians(degrees)
        cos_a''', '''        rads = math.radians(degrees % 360 if degrees >= 0 else -(-degrees % 180))
        cos_a''')],
  needs='rotating by less than -180 degrees', breaks='the vector points the opposite way',
  demo=STD + """
assert Vector(1, 0).rotate(-270).close(Vector(0, 1))
"""),
dict(id='c05-mid-same-base', property='C05',
  edits=[(G, '''        """Midpoint between self and other"""
''', '''        """Midpoint between self and other"""
        base = getattr(self, 'base', None)
        if base is not None and base is getattr(other, 'base', None):
            # Both move with base, so just average the offsets
            return base + Vector(getattr(self, 'dx', 0) + getattr(other, 'dx', 0),
                                 getattr(self, 'dy', 0) + getattr(other, 'dy', 0)) / 2
''')],
  needs='the midpoint of two computed points on one base', breaks='ends up at the place of the base',
  demo=STD + """
b = PointRelative(2, 4, Point(1, 1))
m = PointCalc(b, 1).mid(PointCalc(b, 2))
assert m.xy() == (4, 7), m
"""),
dict(id='c05-rsub-zero', property='C05',
  edits=[(G, '''        """returns other-self, since this is called from other.sub(this)"""
''', '''        """returns other-self, since this is called from other.sub(this)"""
        if not other:
            return self.copy()
''')],
  needs='subtracting a vector from the zero vector', breaks='the difference has the wrong sign',
  demo=STD + """
assert Vector() - Vector(1, 2) == Vector(-1, -2)
"""),
# ---- C07
dict(id='c07-very-smooth-box', property='C07',
  edits=[(B, '''        bb = BBox(self.l, self.r)
        bb.grow(self.c)
        return bb''', '''        bb = BBox(self.l, self.r)
        if self.kind != 'very-smooth':
            bb.grow(self.c)     # else, .c is always the midpoint of .l and .r
        return bb''')],
  needs='a very-smooth control point whose handles are not opposite', breaks='its box misses its centre',
  demo=STD + """
cp = ControlPoint(Point(0, 0), Vector(1, 1), Vector(2, 3), 'very-smooth')
assert cp.bbox() == BBox(0, 0, 2, 3)
"""),
dict(id='c07-flat-center', property='C07',
  edits=[(G, '''        return Point((self.xl+self.xh)/2, (self.yl+self.yh)/2)''', '''        if self.is_empty:
            return self.p1
        return Point((self.xl+self.xh)/2, (self.yl+self.yh)/2)''')],
  needs='the centre of a flat box', breaks='is its low end',
  demo=STD + """
assert BBox(0, 0, 4, 0).center == Point(2, 0)
"""),
dict(id='c07-square-shape', property='C07',
  edits=[(M, '''        b2 = BBox(self.xform.transform_pt(bb.plh), self.xform.transform_pt(bb.phl))
        return b1 + b2''', '''        if bb.width == bb.height:
            return b1
        b2 = BBox(self.xform.transform_pt(bb.plh), self.xform.transform_pt(bb.phl))
        return b1 + b2''')],
  needs='a square shape rotated by its transform', breaks='its box misses two corners',
  demo=STD + """
e = ElemRectangle('r', pb, Point(0, 0), Point(2, 2), xform=Transform().rotate(30))
bb = e.bbox()
for p in e.points():
    x, y = e.xform.transform(*p.xy())
    assert bb.xl - 1e-9 <= x <= bb.xh + 1e-9 and bb.yl - 1e-9 <= y <= bb.yh + 1e-9
"""),
dict(id='c07-curve-covered', property='C07',
  edits=[(M, '''        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb''', '''        for cp in self.control_points[1:]:
            if not bb.contains_pt(cp.c):        # Already covered
                bb = bb + cp.bbox()
        return bb''')],
  needs='a curve with a control point inside the box of those before and handles reaching out', breaks='the box of the curve misses the handles',
  demo=STD + """
e = ElemCurve('e', pb, [ControlPoint(Point(0, 0), Vector(4, 4), Vector(-4, -4)), ControlPoint(Point(1, 1), Vector(9, 0), Vector(0, 9))])
assert e.bbox_int() == BBox(-4, -4, 10, 10), e.bbox_int()
"""),
dict(id='c07-grow-zero', property='C07',
  edits=[(G, '''            self.xl = min(self.xl, x)
            self.xh = max(self.xh, x)''', '''            self.xl = min(self.xl, x or self.xl)
            self.xh = max(self.xh, x or self.xh)''')],
  needs='growing a box by a point at x=0', breaks='the box does not reach 0',
  demo=STD + """
b = BBox(1, 1, 2, 2)
b.grow(Point(0, 5))
assert b == BBox(0, 1, 2, 5), b
"""),
dict(id='c07-expand-flat', property='C07',
  edits=[(G, '''        expand_x = max(expand_x, -self.width/2)''', '''        expand_x = max(expand_x, -self.width/2) if self.width else 0''')],
  needs='expanding a box of no width', breaks='the box is not widened',
  demo=STD + """
assert BBox(1, 0, 1, 4).expand(2) == BBox(-1, -2, 3, 6)
"""),
dict(id='c07-round-inwards', property='C07',
  edits=[(G, '''        return BBox(round(self.xl, n), round(self.yl, n), round(self.xh, n), round(self.yh, n))''', '''        xl, yl = round(self.xl, n), round(self.yl, n)
        return BBox(xl, yl, xl + round(self.width, n), yl + round(self.height, n))''')],
  needs='rounding a box whose corners and size round differently', breaks='the high corner is not the rounded one',
  demo=STD + """
assert round(BBox(0.4, 0.4, 1.6, 1.6), 0) == BBox(0, 0, 2, 2)
"""),
# ---- C08
dict(id='c08-corner-only', property='C08',
  edits=[(G, '''        return BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))''',
  '''        box = BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))
        return box if box.width or box.height else BBox(None)''')],
  needs='two boxes sharing just a corner, or a box of one point', breaks='no intersection is reported',
  demo=STD + """
assert BBox(0, 0, 1, 1).intersection(BBox(1, 1, 2, 2)) == BBox(1, 1, 1, 1)
"""),
dict(id='c08-contains-self', property='C08',
  edits=[(G, '''        return self.xl <= other.xl and other.xh <= self.xh and self.yl <= other.yl and other.yh <= self.yh''',
  '''        return other is not self and self.xl <= other.xl and other.xh <= self.xh and \\
            self.yl <= other.yl and other.yh <= self.yh''')],
  needs='asking a box whether it contains itself', breaks='denied, although it contains an equal box',
  demo=STD + """
b = BBox(0, 0, 1, 2)
assert b.contains(b) and b.contains(b.copy())
"""),
dict(id='c08-touch-pt-corner', property='C08',
  edits=[(G, '''        return ((x == self.xl or x == self.xh) and self.yl < y < self.yh) or \\
               ((y == self.yl or y == self.yh) and self.xl < x < self.xh)''',
  '''        return ((x == self.xl or x == self.xh) and self.yl < y < self.yh) or \\
               ((y == self.yl or y == self.yh) and self.xl <= x < self.xh)''')],
  needs='a point on the left corners of a box', breaks='counts as touching, the right corners do not',
  demo=STD + """
b = BBox(0, 0, 1, 2)
assert not b.touches_pt(Point(0, 0)) and not b.touches_pt(Point(1, 2))
"""),
# ---- C12
dict(id='c12-mirrored-handles', property='C12',
  edits=[(B, '''        t_r = matrix.transform_pt(self.r)
''', '''        if self.dl == -self.dr:
            t_r = t_c + (t_c - t_l)     # Handles are mirrored, so save the work
        else:
            t_r = matrix.transform_pt(self.r)
''')],
  needs='a control point with opposite handles under a vector field', breaks='its right handle does not go where the field takes the tip',
  demo=STD + """
class Sq(Transformer):
    LINEAR = False
    def transform_np_pts(self, np_pts):
        return [(x * x, y * y, 1) for x, y, z in np_pts.T]
cp = ControlPoint(Point(2, 3), Vector(-1, 0), Vector(1, 0), 'sharp')
t = cp.transform(Sq())
assert t.r.close(Point(9, 9)), t
"""),
dict(id='c12-corner-kind', property='C12',
  edits=[(B, '''        t_c = matrix.transform_pt(self.c)
''', '''        t_c = matrix.transform_pt(self.c)
        if not self.dl and not self.dr:
            return ControlPoint(t_c, Vector(), Vector())
''')],
  needs='a control point without handles of kind sharp', breaks='loses its kind when transformed',
  demo=STD + """
assert ControlPoint(Point(1, 2), Vector(), Vector(), 'sharp').transform(Transform()).kind == 'sharp'
"""),
dict(id='c12-three-points', property='C12',
  edits=[(T, '''        return np.array([(x, y, 1) for x, y in points]).T

''', '''        np_pts = np.array([(x, y, 1) for x, y in points])
        return np_pts if np_pts.shape[0] == 3 else np_pts.T

''')],
  needs='a list of exactly three points', breaks='the coordinates are mixed up between the points',
  demo=STD + """
t = Transform().translate(10, 20)
assert t.transform_pts([(0, 0), (1, 1), (2, 3)]) == [(10, 20), (11, 21), (12, 23)]
"""),
dict(id='c12-untransform-unit', property='C12',
  edits=[(T, '''        return [(x, y) for x, y, z in pts]''', '''        return [(x, y) for x, y, z in pts] if len(pts) > 1 else [(float(v[0]), float(v[0])) for v in pts]''')],
  needs='untransforming a list of one point', breaks='y comes back as x',
  demo=STD + """
assert Transform().translate(1, 2).untransform_pts([(5, 9)]) == [(4, 7)]
"""),
dict(id='c12-smooth-flat', property='C12',
  edits=[(B, '''            if cp.kind == 'very-smooth':
                cp.dr''', '''            if cp.kind == 'very-smooth' or cp.dl.length() == cp.dr.length():
                cp.dr''')],
  needs='a sharp control point whose mapped handles are of equal length, under a vector field', breaks='the corner is smoothed away',
  demo=STD + """
class Id(Transformer):
    LINEAR = False
    def transform_np_pts(self, np_pts):
        return [(x, y, 1) for x, y, z in np_pts.T]
cp = ControlPoint(Point(2, 3), Vector(1, 0), Vector(0, 1), 'sharp')
assert cp.transform(Id()) == cp
"""),
# ---- C14
dict(id='c14-merged-handles', property='C14',
  edits=[(B, '''    path = [(ax, ay)]
''', '''    path = [(ax, ay)]
    if (bx, by) == (cx, cy):
        # Both handles at the same place, so this is just a quadratic curve
        for ti in range(1, steps):
            t = ti / steps
            s = 1 - t
            path.append((s*s*ax + 2*s*t*bx + t*t*dx, s*s*ay + 2*s*t*by + t*t*dy))
        steps = 0
''')],
  needs='a segment whose two handle tips are at one place', breaks='a flatter curve is drawn',
  demo=STD + """
p = bez([(0, 0), (4, 4), (4, 4), (8, 0)], steps=2, as_xy=True)
assert p[1] == (4, 3), p
"""),
dict(id='c14-loop-segment', property='C14',
  edits=[(B, '''    for p, q in zip(cps, cps[1:] + extra):
        curve_pts''', '''    for p, q in zip(cps, cps[1:] + extra):
        if p is not q and p.c == q.c:
            continue            # Nothing to draw
        curve_pts''')],
  needs='a path with two successive control points at one place joined by a loop', breaks='the loop is not drawn',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(0, 0), Vector(5, 5)); b = ControlPoint(Point(0, 0), Vector(-5, 5), Vector(1, 1)); c = ControlPoint(Point(9, 9), Vector(-1, 0), Vector(0, 0))
assert len(bez_path(Transform(), [a, b, c], False, steps=4)) == 18
"""),
dict(id='c14-closing-handle', property='C14',
  edits=[(B, '''    for p, q in zip(cps, cps[1:] + extra):
        curve_pts = transform.transform_pts([p.c, p.r, q.l, q.c])''', '''    last = cps[-1]
    for p, q in zip(cps, cps[1:] + extra):
        curve_pts = transform.transform_pts([p.c, p.r, q.r if p is last and len(cps) == 2 else q.l, q.c])''')],
  needs='a closed path of two control points', breaks='the closing segment uses the wrong handle of the first point',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(0, 3), Vector(5, 0)); b = ControlPoint(Point(8, 0), Vector(0, -3), Vector(1, 1))
p = bez_path(Transform(), [a, b], True, steps=2)
x, y = p[6:8]
assert (x, y) == ((8 + 3*9 + 3*0 + 0) / 8, (0 + 3*1 + 3*3 + 0) / 8), p
"""),
dict(id='c14-elem-steps', property='C14',
  edits=[(M, '''            segments = 10 if dc.show_cps else dc.points_per_curve
            control_points''', '''            segments = 10 if dc.show_cps else dc.points_per_curve // max(1, len(self.control_points) // 4)
            control_points''')],
  needs='a curve of very many control points drawn with few points per curve', breaks='segments are drawn with no points between',
  demo=STD + """
e = cv('e', *[(n, n * n % 7) for n in range(16)])
dc = DrawingContext(None, None); dc.points_per_curve = 3
assert len(e.paths(dc)[0].points) == 3 * 16 + 1
"""),
# ---- C15
dict(id='c15-limit-one-side', property='C15',
  edits=[(M, '''            if abs(scale) > cls.OFFSET_PT_LIMIT:''', '''            if scale > cls.OFFSET_PT_LIMIT:''')],
  needs='offsetting a very sharp corner to the other side', breaks='the offset is not limited',
  demo=STD + """
for o in (1, -1):
    for s in (1, -1):
        p = ElemCurve.offset_pt(Vector(1, s * 1e-6), Point(0, 0), Vector(1, -s * 1e-6), o)
        assert (p - Point(0, 0)).length() <= 100 + 1e-9, p
"""),
dict(id='c15-offset-closes', property='C15',
  edits=[(M, '''        return ElemCurve(self.name+'_o', self.penbrush, cps, self.closed, None)''', '''        return ElemCurve(self.name+'_o', self.penbrush, cps, xform=None)''')],
  needs='offsetting an open curve', breaks='the result is closed',
  demo=STD + """
assert cv('e', (0, 0), (5, 5), (9, 0), closed=False).offset(1).closed is False
"""),
dict(id='c15-nearly-straight', property='C15',
  edits=[(M, '''        if abs(dl.cross(dr)) < 1e-10:''', '''        if abs(dl.cross(dr)) < 1e-2:''')],
  needs='offsetting a point with nearly opposite or nearly equal directions', breaks='a sharp spike is offset to the side instead of along the spike',
  demo=STD + """
p = ElemCurve.offset_pt(Vector(1, 0.004), Point(0, 0), Vector(1, -0.004), 0.1)
assert abs(p.x) > 1, p
"""),
dict(id='c15-reverse-very-smooth', property='C15',
  edits=[(B, '''        return ControlPoint(self.c, self.dr, self.dl, self.kind)

    @staticmethod''', '''        if self.kind == 'very-smooth':
            return ControlPoint(self.c, -self.dl, self.dl, self.kind)
        return ControlPoint(self.c, self.dr, self.dl, self.kind)

    @staticmethod''')],
  needs='reversing a very-smooth control point whose handles are not mirrored', breaks='the reversed curve goes elsewhere',
  demo=STD + """
cp = ControlPoint(Point(0, 0), Vector(1, 1), Vector(-1, -2), 'very-smooth')
assert cp.reversed() == ControlPoint(Point(0, 0), Vector(-1, -2), Vector(1, 1), 'very-smooth')
"""),
dict(id='c15-split-closed-one', property='C15',
  edits=[(B, '''    right = ControlPoint(d, cd-d, cp2.dr)
''', '''    right = ControlPoint(d, cd-d, cp2.dr) if cp2.dr else ControlPoint(d, cd-d, d-cd)
''')],
  needs='splitting before a point without outgoing handle', breaks='the next segment gets a handle and bends',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(), Vector(1, 1)); b = ControlPoint(Point(4, 0), Vector(-1, 1), Vector())
assert bez_split(a, b)[2].dr == Vector()
"""),
dict(id='c15-offset-opposite', property='C15',
  edits=[(M, '''        if polygon_area(points) < 0:
            x_cps''', '''        if polygon_area([cp.c for cp in transformed.control_points]) < 0:
            x_cps''')],
  needs='offsetting a curve of two points, or one whose handles turn its area round', breaks='the offset depends on which way the curve runs',
  demo=STD + """
cps = [ControlPoint(Point(0, 0), Vector(0, 5), Vector(0, -5)), ControlPoint(Point(9, 0), Vector(0, -5), Vector(0, 5))]
e = ElemCurve('e', pb, cps); r = ElemCurve('e', pb, ControlPoint.reverse_list(cps))
a = e.offset(1).bbox(); b = r.offset(1).bbox()
assert round(a, 6) == round(b, 6), (a, b)
"""),
# ---- C22
dict(id='c22-morph-late', property='C22',
  edits=[(A, '''        self.validate()
        count = model.replace(self.orig, self.morph)
''', '''        count = model.replace(self.orig, self.morph)
        self.validate()
''')],
  needs='a morph of curves of different size without force', breaks='the model is changed although the morph is refused',
  demo=STD + """
from x7.geom.anim import Morph, MorphError
a = cv('a', (0, 0), (1, 1)); b = cv('b', (0, 0), (1, 1), (2, 2))
g = Group('g', pb, elems=[a])
try:
    Morph(g, a, b, lambda t: t, force=False)
except MorphError:
    pass
assert g.elems['a'] is a
"""),
dict(id='c22-restore-early', property='C22',
  edits=[(M, '''        if len(self.control_points) == len(other.control_points):
            super().restore(other)
''', '''        super().restore(other)
        if len(self.control_points) == len(other.control_points):
''')],
  needs='restoring a curve from one of another size', breaks='name, pen and transform are changed although the restore is refused',
  demo=STD + """
a = cv('a', (0, 0), (1, 1)); b = cv('b', (0, 0), (1, 1), (2, 2))
try:
    a.restore(b)
except Exception:
    pass
assert a.name == 'a'
"""),
dict(id='c22-pop-lost', property='C22',
  edits=[(T, '''        if not self.stack:
            raise EmptyStackError()
        self._mat''', '''        self._inverse = None
        if not self.stack:
            self.reset()
            raise EmptyStackError()
        self._mat''')],
  needs='popping an empty stack', breaks='the map is reset although the pop is refused',
  demo=STD + """
t = Transform().translate(1, 2)
try:
    t.pop()
except Exception:
    pass
assert t == Transform().translate(1, 2)
"""),
dict(id='c22-enter-push', property='C22',
  edits=[(T, '''        if not self.stack:
            raise EmptyStackError("__enter__ called before .push() called")
        return self''', '''        if not self.stack:
            self.push()         # Keep the stack balanced
            raise EmptyStackError("__enter__ called before .push() called")
        return self''')],
  needs='with on a transform that was not pushed', breaks='leaves a matrix on the stack',
  demo=STD + """
t = Transform()
try:
    with t:
        pass
except Exception:
    pass
assert t.stack == []
"""),
dict(id='c22-parse-pop', property='C22',
  edits=[(G, '''        out = []
        it = iter(pts)
''', '''        out = []
        if isinstance(pts, list) and len(pts) > 1 and isinstance(pts[-1], Number) and not isinstance(pts[-2], Number):
            raise ValueError('Missing y value for x=%r' % pts.pop())
        it = iter(pts)
''')],
  needs='parsing a list of points with a lone number at the end', breaks='the number is taken out of the list of the caller',
  demo=STD + """
l = [(1, 2), 3]
try:
    BasePoint.parse(l)
except ValueError:
    pass
assert l == [(1, 2), 3]
"""),
dict(id='c22-lookup-cache', property='C22',
  edits=[(M, '''        if head not in self.elems:
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems.keys())))
        item''', '''        if head not in self.elems:
            self.elems = dict(sorted(self.elems.items()))
            raise KeyError('%s: expected %s' % (head, ', '.join(self.elems)))
        item''')],
  needs='looking up an unknown name in a group whose members are not in order of their names', breaks='the drawing order changes',
  demo=STD + """
g = Group('g', pb, elems=[rect('b'), rect('a')])
try:
    g.lookup('zz')
except KeyError:
    pass
assert list(g.elems) == ['b', 'a']
"""),
dict(id='c22-dump-holes', property='C22',
  edits=[(M, '''        context.append('], outside=')
        with context:
            self.outside.dump(context)
''', '''        context.append('], outside=')
        context.depth += 1
        self.outside.dump(context)
        context.depth -= 1
''')],
  needs='dumping a shape with holes whose outside cannot be dumped', breaks='the context stays indented',
  demo=STD + """
class Bad(ElemRectangle):
    def dump(self, context):
        raise ValueError('no')
dc = DumpContext()
try:
    ElemWithHoles('h', pb, Bad('o', pb, Point(0, 0), Point(1, 1)), []).dump(dc)
except ValueError:
    pass
assert dc.depth == 0
"""),
# ---- C25
dict(id='c25-fit-same', property='C25',
  edits=[(T, '''        if keep_aspect:
            # Retain''', '''        if start == target:
            return
        if keep_aspect:
            # Retain''')],
  needs='fitting a box to itself', breaks='the operation returns nothing to chain on',
  demo=STD + """
t = Transform()
assert t.scale_bbox(BBox(0, 0, 1, 1), BBox(0, 0, 1, 1)) is t
"""),
dict(id='c25-compose-outer-matrix', property='C25',
  edits=[(T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)''', '''        transmat = transmat._mat
        self._mat.pre_dot_eq(transmat.ndmat)''')],
  needs='composing outer with a plain matrix', breaks='raises AttributeError',
  demo=STD + """
from x7.geom.transform import Matrix
assert Transform().compose_outer(Matrix()) == Transform()
"""),
dict(id='c25-rrect-no-radius', property='C25',
  edits=[(M, '''        ab_scale = min(ab_len - new_radius, new_radius)/new_radius if new_radius else 0''', '''        ab_scale = min(ab_len - new_radius, new_radius)/new_radius if ab_len else 0''')],
  needs='a rounded rectangle of radius 0', breaks='cannot be drawn',
  demo=STD + """
e = ElemRectangleRounded('r', pb, Point(0, 0), Point(4, 4), 0)
e.paths(DrawingContext(None, None))
"""),
dict(id='c25-abstract-transformer', property='C25',
  edits=[(T, '''    @abstractmethod
    def transform_np_pts(''', '''    def transform_np_pts(''')],
  needs='instantiating the Transformer interface', breaks='is possible',
  demo=STD + """
try:
    Transformer()
except TypeError:
    pass
else:
    raise AssertionError
"""),
dict(id='c25-display-points', property='C25',
  edits=[(M, '''        for name, pt in sorted(self.points.items()):
            print''', '''        for pt, name in sorted((pt, name) for name, pt in self.points.items()):
            print''')],
  needs='displaying a group with two named points', breaks='raises TypeError',
  demo=STD + """
g = Group('g', pb); g.add_pt('a', Point(1, 2)); g.add_pt('b', Point(3, 4))
g.display()
"""),
dict(id='c25-holes-walk', property='C25',
  edits=[(M, '''            base = '%s.%s' % (root, self.name) if root else self.name
            yield from self.outside.iter_elems(base + '.outside', matrix)''', '''            base = '%s.%s' % (root, self.name)
            yield from self.outside.iter_elems(base + '.outside', matrix)''')],
  needs='walking a shape with holes on its own', breaks="names start with 'None.'",
  demo=STD + """
e = ElemWithHoles('h', pb, rect('o'), [])
assert [n for n, _, _ in e.iter_elems()] == ['h.outside.o']
"""),
dict(id='c25-round-relative', property='C25',
  edits=[(G, '''    def __round__(self, n=None):
        return round(self.fixed(), n)

    def round''', '''    def __round__(self, n=None):
        return Point(*round(self.v, n), self.name)

    def round''')],
  needs='rounding a computed point without digits', breaks='raises TypeError? or drops the digits',
  demo=STD + """
p = PointRelative(0.4, 0.6, Point(1, 1), 'q')
assert round(p, 1) == round(p.fixed(), 1), round(p, 1)
"""),
# ---- C29
dict(id='c29-single-crossing', property='C29',
  edits=[(B, '''    if as_points:
        return [pt for pt, ta, tb in result]''', '''    if as_points:
        return [pt for pt, ta, tb in result]
    elif len(result) == 1:
        return [result[0][1:]]''')],
  needs='two curves crossing exactly once', breaks='parameters come as one row instead of two',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(), Vector(1, 1)); b = ControlPoint(Point(3, 3), Vector(-1, -1), Vector())
c = ControlPoint(Point(0, 3), Vector(), Vector(1, -1)); d = ControlPoint(Point(3, 0), Vector(-1, 1), Vector())
from x7.geom.bezier import bez_intersect
r = bez_intersect(a, b, c, d)
assert len(r) == 2 and len(r[0]) == 1, r
"""),
dict(id='c29-second-crossing', property='C29',
  edits=[(B, '''            l, m, r = bez_split(a, b, (t_ix-t)/(1-t))''', '''            l, m, r = bez_split(a, b, t_ix-t)''')],
  needs='a segment crossed at two places', breaks='the second crossing is cut at the wrong place and refused',
  demo=STD + """
from x7.geom.bezier import bez_self_intersect
def S(x, y): return ControlPoint(Point(x, y), Vector(), Vector(), 'sharp')
cps = [S(0, 0), S(9, 0), S(9, 3), S(7, 3), S(6, -3), S(4, -3), S(3, 3), S(0, 3)]
r = bez_self_intersect(cps)
assert len(r) >= 2, r
"""),
dict(id='c29-single-loop', property='C29',
  edits=[(B, '''        if intersection:
            # This''', '''        if intersection and cpa is not cpb and len(orig_cps) > 2:
            # This''')],
  needs='a closed curve of two points with a loop within one segment', breaks='the loop is not found',
  demo=STD + """
from x7.geom.bezier import bez_self_intersect
cps = [ControlPoint(Point(0, 0), Vector(0, -9), Vector(40, 20)), ControlPoint(Point(10, 0), Vector(-40, 20), Vector(0, -9))]
r = bez_self_intersect(cps)
assert len(r) == 2, r
"""),
dict(id='c29-corner-kinds', property='C29',
  edits=[(B, '''                    cps[0].dl = cps[-1].dl
                    cps[0].kind = 'sharp\'''', '''                    cps[0].dl = cps[-1].dl
                    if cps[0].dl.cross(cps[0].dr):
                        cps[0].kind = 'sharp\'''')],
  needs='parts meeting at a crossing with parallel handles', breaks='the corner stays smooth',
  demo=STD + """
from x7.geom.bezier import bez_self_intersect
def S(x, y, k='smooth'): return ControlPoint(Point(x, y), Vector(), Vector(), k)
cps = [ControlPoint(Point(0, 0), Vector(), Vector()), S(4, 4), S(4, 0), S(0, 4)]
r = bez_self_intersect(cps)
assert r and all(c[0].kind == 'sharp' for c in r), r
cps = [ControlPoint(Point(0, 0), Vector(0, -1), Vector(0, -1)), ControlPoint(Point(2, 0), Vector(0, -1), Vector(0, 1))]
"""),
dict(id='c29-give-up', property='C29',
  edits=[(B, '''        # bz.intersect will give up if there are too many "candidate" intersections
        print('WARNING: ', err)
        intersections = np.array([])''', '''        # bz.intersect will give up if there are too many "candidate" intersections
        print('WARNING: ', err)
        intersections = np.array([[0.0], [0.0]])''')],
  needs='curves the solver gives up on', breaks='a crossing at the start is reported',
  demo=STD + """
import x7.geom.bezier as bz
class C:
    def __init__(self, *a): pass
    def intersect(self, o): raise NotImplementedError('x')
    def evaluate_multi(self, t): import numpy as np; return np.array([[0.0], [0.0]])
bz.BzCurve = C
a = ControlPoint(Point(0, 0), Vector(), Vector())
assert bz.bez_intersect_new(a, a, a, a) == []
"""),
dict(id='c29-elem-names', property='C29',
  edits=[(M, '''        xformed = self.control_points_transformed(self.xform)
        curve_cps''', '''        xformed = self.control_points_transformed(self.xform) if self.closed else self.control_points
        curve_cps''')],
  needs='an open shape with a transform that crosses itself', breaks='its parts are not where the shape is',
  demo=STD + """
import x7.geom.bezier as bz
import x7.geom.model as m
seen = []
m.bez_self_intersect = lambda cps, debug=False: seen.append(cps) or []
cv('e', (0, 0), (5, 5), closed=False, xform=Transform().translate(10, 0)).self_intersect()
assert seen[0][0].c == Point(10, 0)
"""),
# ---- C31
dict(id='c31-delta-zero', property='C31',
  edits=[(S, '''        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
''', '''        delta = delta or None
        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
''')],
  needs='almost-equal with a delta of 0', breaks='tiny differences are accepted',
  demo=STUB + STD + """
from x7.geom.testing import *
import x7.geom.testing as tt
class T(tt.TestCaseGeomExtended):
    def runTest(self): pass
t = T()
assert tt.ExtendedMatcherPoint(t).almost_equal(Point(1, 1), Point(1 + 1e-9, 1), delta=0) is not True
"""),
dict(id='c31-two-levels', property='C31',
  edits=[(S, '''        [s for c in cls.__subclasses__() for s in all_subclasses(c)])''', '''        [s for c in cls.__subclasses__() for s in c.__subclasses__()])''')],
  needs='a shape class of a client derived from a concrete shape', breaks='its saved text cannot be loaded',
  demo=STUB + STD + """
import x7.geom.testing as tt
class Sq(ElemRectangle): pass
assert 'Sq' in tt.PicklerExtensionGeom(None).methods()
"""),
dict(id='c31-title-none', property='C31',
  edits=[(S, '''        plt.rcParams['axes.titley'] = self.titley
''', '''        if self.titley is not None:
            plt.rcParams['axes.titley'] = self.titley
''')],
  needs='matching a plot with the default title setting', breaks='the title setting stays changed',
  demo=STUB + STD + """
import x7.geom.testing as tt
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.rcParams['axes.titley'] = None
class T(tt.TestCaseGeomExtended):
    def runTest(self): pass
    def match(self, *a): return True
with T().assertMatchPlot(func='f'):
    plt.plot([1, 2])
assert plt.rcParams['axes.titley'] is None
"""),
dict(id='c31-one-line-tag', property='C31',
  edits=[(S, '''                    if ed.count('\\n') == 0:
                        dc.append('(%r, %s, %r),' % (s, ed, t))''', '''                    if ed.count('\\n') == 0 and t == Transform():
                        dc.append('(%r, %s, Transform()),' % (s, ed))
                    elif ed.count('\\n') == 0:
                        dc.append('(%r, %s, %r),' % (s, ed, e.xform))''')],
  needs='saving (name, rectangle, transform) where the rectangle has another transform', breaks='the transform of the shape is saved instead',
  demo=STUB + STD + """
import x7.geom.testing as tt
t = Transform().translate(3, 4)
x = tt.PicklerExtensionGeom(None)
s = x.do_pickle([('n', rect('r'), t)], '')
assert eval(s, x.methods())[0][2] == t, s
"""),
dict(id='c31-explain-far', property='C31',
  edits=[(S, '''        close: bool = new_data.close(old_data)
        return close, None''', '''        close: bool = new_data.close(old_data, 1e-7 * max(1, new_data.x))
        return close, None''')],
  needs='explaining a mismatch of points far from the origin', breaks='different points are called close',
  demo=STUB + STD + """
import x7.geom.testing as tt
class T(tt.TestCaseGeomExtended):
    def runTest(self): pass
assert tt.ExtendedMatcherPoint(T()).explain_mismatch(Point(1e6, 0), Point(1e6, 1e-3))[0] is False
"""),
# ---- others
dict(id='c02-offset-none', property='C02',
  edits=[(M, '''        """Offset this curve by <offset>"""
''', '''        """Offset this curve by <offset>"""
        if not offset:
            return self
''')],
  needs='offsetting by 0', breaks='the result is the curve itself',
  demo=STD + """
e = cv('e', (0, 0), (5, 5), (9, 0))
assert e.offset(0) is not e
"""),
dict(id='c02-curves-identity', property='C02',
  edits=[(M, '''        cps = [cp.transform(self.xform) for cp in self.as_digi_points()]
''', '''        cps = self.as_digi_points()
        if self.xform != Transform():
            cps = [cp.transform(self.xform) for cp in cps]
''')],
  needs='as_curves of a curve without transform', breaks='the curves share the control points of the shape',
  demo=STD + """
e = cv('e', (0, 0), (5, 5), (9, 0))
c = e.as_curves()[0]
c.control_points[0].c.setxy(7, 7)
assert e.control_points[0].c == Point(0, 0)
"""),
dict(id='c02-scaled-one', property='C02',
  edits=[(V, '''        return VectorField(self.mesh, self.vx * sx, self.vy * sy)''', '''        return VectorField(self.mesh, self.vx * sx if sx != 1 else self.vx, self.vy * sy if sy != 1 else self.vy)''')],
  needs='scaling a vector field by 1 along one axis', breaks='the fields share values',
  demo=STUB + STD + """
from x7.geom.vec_field import *
f = Mesh(BBox(0, 0, 1, 1), 3).uniform(1)
g = f.scaled(2, 1)
g.vy[0, 0] = 99
assert f.vy[0, 0] != 99
"""),
dict(id='c03-self-restore', property='C03',
  edits=[(M, '''        self.elems = dict(other.elems)
        self.points = dict(other.points)''', '''        self.elems.clear()
        self.elems.update(other.elems)
        self.points.clear()
        self.points.update(other.points)''')],
  needs='restoring a group from itself, or one sharing the points of the caller', breaks='it is emptied',
  demo=STD + """
g = Group('g', pb, elems=[rect('a')])
g.restore(g)
assert list(g.elems) == ['a']
"""),
dict(id='c03-xform-in-place', property='C03',
  edits=[(M, '''        self.closed = other.closed
        self.xform = other.xform.copy()

    @abstractmethod
    def transform(''', '''        self.closed = other.closed
        self.xform.set_matrix(other.xform)

    @abstractmethod
    def transform(''')],
  needs='restoring one of two shapes made with one transform object', breaks='the other shape moves too',
  demo=STD + """
t = Transform().translate(1, 1)
a = rect('a', xform=t); b = rect('b', xform=t)
a.restore(rect('a', xform=Transform().translate(9, 9)))
assert b.xform == Transform().translate(1, 1)
"""),
dict(id='c13-quarter-radius', property='C13',
  edits=[(M, '''        radius = (p1r-p1).length()''', '''        radius = abs((p1r-p1).x)''')],
  needs='a rounded rectangle turned by a quarter', breaks='loses its rounding',
  demo=STD + """
e = ElemRectangleRounded('r', pb, Point(0, 0), Point(9, 5), 2).transform(Transform().rotate(90))
assert abs(e.radius - 2) < 1e-9
"""),
dict(id='c13-curves-order', property='C13',
  edits=[(M, '''        all_elems = [self.outside] + self.inside
        return [c.transform''', '''        all_elems = [self.outside] + [e for e in self.inside if e.name != self.outside.name]
        return [c.transform''')],
  needs='a hole with the name of the outside', breaks='the hole has no curves',
  demo=STD + """
e = ElemWithHoles('h', pb, rect('a'), [rect('a')])
assert len(e.as_curves()) == 2
"""),
dict(id='c04-stack-eq', property='C04',
  edits=[(T, '''        return isinstance(other, Transform) and self._mat == other._mat''', '''        return isinstance(other, Transform) and self._mat == other._mat and len(self.stack) <= len(other.stack)''')],
  needs='comparing a pushed transform with an equal one that is not pushed', breaks='equality depends on the side',
  demo=STD + """
a = Transform().push(); b = Transform()
assert (a == b) == (b == a)
"""),
dict(id='c04-field-shape', property='C04',
  edits=[(V, '''            and np.array_equal(self.vx, other.vx) and np.array_equal(self.vy, other.vy)
        )''', '''            and bool((self.vx == other.vx).all()) and np.array_equal(self.vx + self.vy, other.vx + other.vy)
        )''')],
  needs='fields whose values differ beyond rounding', breaks='values lost in rounding count as equal',
  demo=STUB + STD + """
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 1), 2)
a = m.zeros(); b = m.zeros()
a.vx[:] = 1e20; b.vx[:] = 1e20; b.vy[:] = 3
assert a != b
"""),
dict(id='c06-calc-frozen', property='C06',
  edits=[(G, '''        base_x, base_y = self.base.base.xy()
        return self.scale * self.base.dx + base_x''', '''        base_x, base_y = self.base.base.xy() if self.scale else self.base.xy()
        return self.scale * self.base.dx + base_x''')],
  needs='a computed point of scale 0', breaks='sits at its base instead of the base of that',
  demo=STD + """
assert PointCalc(PointRelative(2, 3, Point(1, 1)), 0).xy() == (1, 1)
"""),
dict(id='c09-uniform-width', property='C09',
  edits=[(T, '''        sx, sy = self.scale_vals()
        return width * (abs(sx) + abs(sy)) / 2''', '''        sx, sy = self.scale_vals()
        if self.is_simple():
            sx, sy = self._mat.ndmat[0][0], self._mat.ndmat[1][1]
        return width * (abs(sx) + abs(sy)) / 2''')],
  needs='the width under a quarter turn', breaks='is 0',
  demo=STD + """
t = Transform((0, 2, 0, -2, 0, 0))
assert t.transform_width(3) == 6
"""),
dict(id='c10-outer-keeps', property='C10',
  edits=[(T, '''        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self

    def is_simple''', '''        self._mat.pre_dot_eq(transmat.ndmat)
        if self._inverse is not None and transmat.ndmat[0][0] != 1:
            self._inverse = None
        return self

    def is_simple''')],
  needs='composing a translation outside a map that was inverted before', breaks='undoing uses the old map',
  demo=STD + """
t = Transform().scale(2, 2)
t.untransform(1, 1)
t.compose_outer(Transform().translate(5, 5))
assert t.untransform(5, 5) == (0, 0)
"""),
dict(id='c11-paths-skip', property='C11',
  edits=[(M, '''            path = [p.xy() for p in self.points_transformed(dc.matrix)]
        path.append(path[0])''', '''            path = [p.xy() for p in self.points_transformed(dc.matrix)]
            dc.matrix.push() if not dc.prod else None
        path.append(path[0])''')],
  needs='drawing a rectangle in a draft context', breaks='a matrix stays on the stack',
  demo=STD + """
dc = DrawingContext(None, None, prod=False)
rect('r').paths(dc)
assert dc.matrix.stack == []
"""),
dict(id='c16-arc-full', property='C16',
  edits=[(U, '''        if sa < ea:
            sa += 360''', '''        if sa <= ea:
            sa += 360''')],
  needs='a clockwise arc of no extent', breaks='is a whole circle',
  demo=STUB + STD + """
from x7.geom.utils import arc
p = arc(1, 30, 30, steps=4, direction='cw')
assert all(abs(x - p[0][0]) < 1e-9 for x, y in p), p
"""),
dict(id='c17-hidden-empty', property='C17',
  edits=[(M, '''        if self.hidden:
            extra['hidden'] = self.hidden
        if self.points:''', '''        if self.hidden and self.elems:
            extra['hidden'] = self.hidden
        if self.points:''')],
  needs='dumping an empty hidden group', breaks='it loads visible',
  demo=STD + """
g = Group('g', pb, hidden=True)
assert 'hidden' in g.dump().output()
"""),
dict(id='c21-two-outsides', property='C21',
  edits=[(M, '''            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail)''', '''            if isinstance(item, (Group, ElemWithHoles)):
                return item.lookup(tail) if sep else item
            elif tail == item.name:
                return item''')],
  needs="looking up 'a.a' where a is a plain shape", breaks='finds the shape instead of refusing',
  demo=STD + """
g = Group('g', pb, elems=[rect('a')])
try:
    g.lookup('a.a')
except ValueError:
    pass
else:
    raise AssertionError
"""),
dict(id='c23-replace-none', property='C23',
  edits=[(C, '''        if width is not None and self.pen:
            pen = Pen(self.pen.brush, width)''', '''        if width and self.pen:
            pen = Pen(self.pen.brush, width)''')],
  needs='replacing the width by 0', breaks='the width stays',
  demo=STD + """
assert PenBrush(('red', 5)).replace(width=0).pen.width == 0
"""),
dict(id='c24-outline-first', property='C24',
  edits=[(M, '''                if do_outline:
                    draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')''', '''                if do_outline and not draw.shadow_color:
                    draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')''')],
  needs='the shadow of a filled shape with a pen', breaks='its outline throws no shadow',
  demo=STD + """
calls = []
class D:
    def polygon(self, *a, **k): calls.append('p')
    def line(self, *a, **k): calls.append('l')
    def ellipse(self, *a, **k): pass
dc = DrawingContext(None, None); dc.draw = D(); dc.shadow_color = 'grey'
rect('r', pen=PenBrush('red', 'blue')).draw(dc)
assert calls == ['p', 'l'], calls
"""),
dict(id='c27-closest-end', property='C27',
  edits=[(G, '''        dot = to_point.dot(d_unit)
''', '''        dot = max(to_point.dot(d_unit), -self.direction.length())
''')],
  needs='the closest point far behind the origin of a line', breaks='is held back',
  demo=STD + """
assert Line(Point(0, 0), Vector(1, 0)).closest(Point(-5, 3)) == Point(-5, 0)
"""),
dict(id='c28-flat-mesh', property='C28',
  edits=[(V, '''        self.coord_y = np.linspace(bbox.yl, bbox.yh, steps, dtype=np.dtype(float))
''', '''        self.coord_y = self.coord_x if bbox.yl == bbox.xl else \\
            np.linspace(bbox.yl, bbox.yh, steps, dtype=np.dtype(float))
''')],
  needs='a mesh over a box with its low corner on the diagonal that is not square', breaks='rows are at the wrong places',
  demo=STUB + STD + """
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 5), 3)
assert m.coord_y[-1] == 5
"""),
dict(id='c30-crop-false', property='C30',
  edits=[(D, '''        if isinstance(crop, tuple):
            im = im.crop(self.crop_to_pixels(crop))''', '''        if isinstance(crop, tuple) and any(crop[:2]):
            im = im.crop(self.crop_to_pixels(crop))''')],
  needs='a picture cropped from the origin', breaks='is cropped by the default instead',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (50, 50)), None, crop=(0, 0, 40, 40))
assert dc.image((0, 0, 10, 10)).size == (10, 10)
"""),
]
