G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c05-length-axis', property='C05',
  edits=[(G, """    def length(self) -> float:
        return math.hypot(*self.xy())
""", """    def length(self) -> float:
        x, y = self.xy()
        if not y:
            return abs(x)
        return math.hypot(x, y) if x else y
""")],
  needs='a vector pointing straight down',
  breaks='the length of a vector straight down is negative',
  demo=STD + """
assert Vector(0, -3).length() == 3
"""),
dict(id='c06-mid-same', property='C06',
  edits=[(G, """        \"\"\"Midpoint between self and other\"\"\"
        sx, sy = self.xy()
""", """        \"\"\"Midpoint between self and other\"\"\"
        if self == other:
            return self
        sx, sy = self.xy()
""")],
  needs='the midpoint of two equal points, and a later move of one of them',
  breaks='the midpoint is the live point itself',
  demo=STD + """
p = Point(1, 2); q = Point(1, 2)
m = p.mid(q)
p.setxy(9, 9)
assert m.xy() == (1, 2), m
"""),
dict(id='c06-fixed-self', property='C06',
  edits=[(G, """    def fixed(self) -> 'Vector':
        return Vector(*self.xy())
""", """    def fixed(self) -> 'Vector':
        if type(self) is Vector:
            return self             # No dependencies to resolve
        return Vector(*self.xy())
""")],
  needs='fixed() of a plain vector that is set later',
  breaks='the fixed vector follows the vector it was taken from',
  demo=STD + """
v = Vector(1, 2)
f = v.fixed()
v.setxy(5, 5)
assert f == Vector(1, 2), f
"""),
dict(id='c07-transformed-uniform', property='C07',
  edits=[(G, """        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        return BBox(ll, lh) + BBox(hh, hl)
""", """        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        if ll.x == lh.x or ll.y == lh.y:
            return BBox(ll, hh)         # Still axis aligned
        return BBox(ll, lh) + BBox(hh, hl)
""")],
  needs='a sheared map that keeps vertical edges vertical',
  breaks='the transformed box misses two corners under a vertical shear',
  demo=STD + """
b = BBox(0, 0, 2, 2).transformed(Transform((1, 0, 0, 1, 1, 0)))
assert b == BBox(0, 0, 2, 4), b
"""),
dict(id='c07-sort-elif', property='C07',
  edits=[(G, """    def sort(self):
        self.xl, self.xh = min(self.xl, self.xh), max(self.xl, self.xh)
        self.yl, self.yh = min(self.yl, self.yh), max(self.yl, self.yh)
""", """    def sort(self):
        if self.xl > self.xh:
            self.xl, self.xh = self.xh, self.xl
        elif self.yl > self.yh:
            self.yl, self.yh = self.yh, self.yl
""")],
  needs='a box whose coordinates were set in reverse order in both axes',
  breaks='sort() leaves the second axis reversed',
  demo=STD + """
b = BBox(0, 0, 1, 1)
b[0] = 5; b[1] = 7
b.sort()
assert b.as_tuple() == (1, 1, 5, 7), b
"""),
dict(id='c08-overlaps-area', property='C08',
  edits=[(G, """        if self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl:
            return False
        return True
""", """        return bool(self.intersection(other).area())
""")],
  needs='a box without width or height inside another',
  breaks='a flat box crossing another box does not overlap it',
  demo=STD + """
a = BBox(0, 0, 4, 4); b = BBox(1, -1, 1, 9)
assert a.overlaps(b) and b.overlaps(a)
"""),
dict(id='c02-intersection-alias', property='C02',
  edits=[(G, """        return BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))
""", """        if self.contains(other):
            return other
        return BBox(max(self.xl, other.xl), max(self.yl, other.yl), min(self.xh, other.xh), min(self.yh, other.yh))
""")],
  needs='the intersection with a box that lies inside, grown later',
  breaks='growing the intersection of two boxes grows the inner one',
  demo=STD + """
a = BBox(0, 0, 4, 4); b = BBox(1, 1, 2, 2)
c = a.intersection(b)
c.grow(Point(9, 9))
assert b == BBox(1, 1, 2, 2), b
"""),
dict(id='c09-quarter-ccw', property='C09',
  edits=[(T, """        self._mat.pre_dot_eq(self.rotate_mat_ccw(math.radians(degrees)))
""", """        if abs(degrees) in (90, 180, 270):
            # exact quarter turns
            c, s = {90: (0, 1), 180: (-1, 0), 270: (0, -1)}[abs(degrees)]
            self._mat.pre_dot_eq(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]))
        else:
            self._mat.pre_dot_eq(self.rotate_mat_ccw(math.radians(degrees)))
""")],
  needs='a rotation by minus ninety degrees',
  breaks='rotate_ccw(-90) turns the other way',
  demo=STD + """
x, y = Transform().rotate_ccw(-90).transform(1, 0)
assert abs(x) < 1e-9 and abs(y + 1) < 1e-9, (x, y)
"""),
dict(id='c10-inverse-saved', property='C10',
  edits=[(T, """        self.stack.append(self._mat.copy())
        return self
""", """        self.stack.append(self._mat.copy())
        if self._inverse is not None:
            self._saved.append(self._inverse)
        return self
"""), (T, """        self._mat = self.stack.pop()
        self._inverse = None
""", """        self._mat = self.stack.pop()
        self._inverse = self._saved.pop() if self._saved else None
"""), (T, """        self._inverse = None
        self.stack = []
""", """        self._inverse = None
        self.stack = []
        self._saved = []
""")],
  needs='two pushes, only the first of them with the inverse known',
  breaks='after the inner pop the inverse is that of the outer matrix',
  demo=STD + """
t = Transform().scale(2, 2)
t.untransform(1, 1)
t.push(); t.translate(5, 0); t.push(); t.scale(3, 3); t.pop()
x, y = t.untransform(*t.transform(1, 2))
assert abs(x - 1) < 1e-9 and abs(y - 2) < 1e-9, (x, y)
"""),
dict(id='c11-depth', property='C11',
  edits=[(T, """            raise EmptyStackError("__enter__ called before .push() called")
        return self
""", """            raise EmptyStackError("__enter__ called before .push() called")
        self._depth = len(self.stack)
        return self
"""), (T, """    def __exit__(self, exc_type, exc_val, exc_tb):
        self.pop()
""", """    def __exit__(self, exc_type, exc_val, exc_tb):
        # An abandoned inner block may have left extra matrices
        while len(self.stack) >= self._depth:
            self.pop()
""")],
  needs='two with-blocks nested in one another',
  breaks='the outer with-block does not pop',
  demo=STD + """
t = Transform()
with t.push().translate(1, 0):
    with t.push().scale(2, 2):
        pass
assert t == Transform() and not t.stack
"""),
dict(id='c12-linear-type', property='C12',
  edits=[(B, """        if not matrix.LINEAR:
""", """        if not isinstance(matrix, Transform):
""")],
  needs='a linear transformer of the client, and a smooth control point',
  breaks='handles are realigned by linear client transformers',
  demo=STD + """
from x7.geom.transform import Transformer
class Shear(Transformer):
    def transform_np_pts(self, np_pts):
        return [(x, y + y * x, 1) if False else (2 * x + y, y, 1) for x, y, _ in np_pts.T]
cp = ControlPoint(Point(1, 1), Vector(1, 2), Vector(-1, 3))
t = cp.transform(Shear())
assert t.dl == Vector(4, 2) and t.dr == Vector(1, 3), t
"""),
dict(id='c14-already-closed', property='C14',
  edits=[(M, """            if self.closed:
                extra = control_points  # Loop back to start
""", """            if self.closed and control_points[0].c != control_points[-1].c:
                extra = control_points  # Loop back to start
""")],
  needs='a closed curve whose last point lies on its first, with a loop between them',
  breaks='the closing loop of the curve is not drawn',
  demo=STD + """
from x7.geom.drawing import DrawingContext
cps = [ControlPoint(Point(0, 0), Vector(0, -9), Vector(5, 5)), ControlPoint(Point(9, 0), Vector(-1, 5), Vector(-1, -5)),
       ControlPoint(Point(0, 0), Vector(5, -5), Vector(-9, 0))]
e = ElemCurve('e', pb, cps)
dc = DrawingContext(None, Transform()); dc.points_per_curve = 4
p = e.paths(dc)[0].points.tolist()
assert len(p) == 13, len(p)
"""),
dict(id='c15-split-zero', property='C15',
  edits=[(B, """        return p + t*(q-p)
""", """        return p + (t or 0.5)*(q-p)
""")],
  needs='a split right at the start of a segment',
  breaks='splitting at t=0 splits in the middle',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(0, 0), Vector(1, 2)); b = ControlPoint(Point(8, 0), Vector(-1, 2), Vector(0, 0))
l, m, r = bez_split(a, b, 0)
assert m.c == Point(0, 0), m
"""),
dict(id='c27-closest-origin', property='C27',
  edits=[(G, """        dot = to_point.dot(d_unit)
        return self.origin + d_unit*dot
""", """        dot = to_point.dot(d_unit)
        if not dot:
            return self.origin
        return self.origin + d_unit*dot
""")],
  needs='a point straight beside the origin of the line, and a later move of the result or the line',
  breaks='the closest point is the origin of the line itself',
  demo=STD + """
ln = Line(Point(1, 1), Vector(1, 0))
p = ln.closest(Point(1, 5))
p.setxy(7, 7)
assert ln.origin == Point(1, 1), ln
"""),
dict(id='c27-antiparallel', property='C27',
  edits=[(G, """    def parallel(self, other):
        return self.direction.cross(other.direction) == 0
""", """    def parallel(self, other):
        d, o = self.direction, other.direction
        return d.cross(o) == 0 and d.dot(o) > 0
""")],
  needs='two lines running in opposite directions',
  breaks='lines that run in opposite directions are not recognised as parallel',
  demo=STD + """
assert Line(Point(0, 0), Vector(1, 1)).parallel(Line(Point(0, 5), Vector(-2, -2)))
"""),
dict(id='c04-relative-place', property='C04',
  edits=[(G, """            self.dx == other.dx and self.dy == other.dy and
            self.base == other.base
""", """            self.dx == other.dx and self.dy == other.dy and
            self.xy() == other.xy()
""")],
  needs='relative points on bases that are of another kind or name, at the same place',
  breaks='relative points with different bases are equal',
  demo=STD + """
assert PointRelative(1, 2, Point(0, 0, 'a')) != PointRelative(1, 2, Point(0, 0, 'b'))
"""),
dict(id='c17-cp-kind', property='C17',
  edits=[(B, """    def __repr__(self):
        return 'ControlPoint' + repr((self.c, self.dl, self.dr, self.kind))
""", """    def __repr__(self):
        if self.kind == 'smooth' or self.dl == -self.dr:
            return 'ControlPoint' + repr((self.c, self.dl, self.dr))
        return 'ControlPoint' + repr((self.c, self.dl, self.dr, self.kind))
""")],
  needs='a control point with opposite handles that is not of the smooth kind',
  breaks='the printed control point reads back with another kind',
  demo=STD + """
cp = ControlPoint(Point(0, 0), Vector(1, 2), Vector(-1, -2), 'sharp')
assert eval(repr(cp)) == cp, repr(cp)
"""),
dict(id='c21-number-count', property='C21',
  edits=[(M, """                num = 0
                while (name_try""", """                num = sum(n.startswith(name + '#') for n in self.elems)
                while (name_try""")],
  needs='numbered names with a gap',
  breaks='a clashing name gets a number past the first free one',
  demo=STD + """
g = Group('g', pb)
for n in ('r', 'rectangle#1'):
    g.add(n, rect(n))
g.add('r', rect('r'), True)
assert list(g.elems) == ['r', 'rectangle#1', 'rectangle#0'], list(g.elems)
"""),
dict(id='c21-iter-root', property='C21',
  edits=[(M, """            base = '%s.%s' % (root, self.name) if root else self.name
            yield from self.outside.iter_elems(base + '.outside', matrix)
""", """            base = '%s.%s' % (root or 'unknown', self.name)
            yield from self.outside.iter_elems(base + '.outside', matrix)
""")],
  needs='walking a shape with holes that is not in a group',
  breaks='the parts of a lone shape with holes are walked under another path',
  demo=STD + """
h = ElemWithHoles('h', pb, rect('o'), [])
assert [n for n, e, m in h.iter_elems()] == ['h.outside.o'], [n for n, e, m in h.iter_elems()]
"""),
dict(id='c21-builder-kind', property='C21',
  edits=[(M, """        pens_by_shape = pens_by_shape or self.pens_by_shape
        shape_kind = shape_kind or self.default_shape_kind
        g = GroupBuilder(""", """        if pens_by_shape is None:
            pens_by_shape = self.pens_by_shape
            shape_kind = shape_kind or self.default_shape_kind
        g = GroupBuilder("""), (M, "pens_by_shape=pens_by_shape, shape_kind=shape_kind)\n        self.add(name, g.the_group)", "pens_by_shape=pens_by_shape, shape_kind=shape_kind or 'edge')\n        self.add(name, g.the_group)")],
  needs='a builder with its own default kind, and a sub-group with its own pens',
  breaks='the sub-group forgets the default kind of its parent',
  demo=STD + """
b = GroupBuilder('b', PensByShape.make(False, 'red', 'blue'), 'filled')
s = b.group('s', PensByShape.make(False, 'green', 'pink'))
r = s.rect('r', Point(0, 0), Point(1, 1))
assert r.penbrush == PenBrush(None, 'green'), r.penbrush
"""),
dict(id='c21-dump-group-name', property='C17',
  edits=[(M, """            basic += 'xform=%s, ' % xform
""", """            if xform not in basic:
                basic += 'xform=%s, ' % xform
""")],
  needs='a shape whose name contains the name of its transform variable',
  breaks='the transform of a shape named like the variable is not dumped',
  demo=STD + """
from x7.geom.model import DumpContext
e = rect('xform_1', xform=Transform().translate(3, 4))
ns = {}
exec(e.dump(DumpContext()).output(), ns)
assert ns['model'] == e, ns['model'].xform
"""),
dict(id='c17-vars-order', property='C17',
  edits=[(M, """    def set_var(self, value, prefix='var'):
        if self.use_vars:
            value = repr(value)
""", """    def set_var(self, value, prefix='var'):
        if self.use_vars:
            value = str(value) if prefix == 'pen' and isinstance(value.stroke_color, tuple) else repr(value)
""")],
  needs='a pen whose colour is a tuple, with a width of its own',
  breaks='pens with tuple colours lose their brush in the dumped program',
  demo=STD + """
from x7.geom.model import DumpContext
e = rect('e', pen=PenBrush(((1, 2, 3), 4), 'red'))
ns = {}
exec(e.dump(DumpContext()).output(), ns)
assert ns['model'] == e, ns['model'].penbrush
"""),
dict(id='c23-replace-keep', property='C23',
  edits=[(C, """        return PensByShape(**dict((k, self[k].replace(width=width)) for k in self.keys()))
""", """        return PensByShape(**dict(
            (k, self[k].replace(width=width) if self[k].stroked else self[k].replace(pen=self.edge.pen))
            for k in self.keys()))
""")],
  needs='a table with a kind that has a brush only',
  breaks='replacing the width gives kinds without a pen the pen of edges',
  demo=STD + """
t = PensByShape.make(False, 'red', 'blue').replace_width(3)
assert not t.filled.stroked, t.filled
"""),
dict(id='c23-pen-pair', property='C23',
  edits=[(C, """        elif isinstance(pen, tuple) and len(pen) == 2:
            self.pen = Pen(*pen)        # (color, width)
""", """        elif isinstance(pen, tuple) and not isinstance(pen[0], Number):
            self.pen = Pen(*pen)        # (color, width)
""")],
  needs='a pair of a number colour and a width',
  breaks='a pair with a numeric colour is taken as a colour',
  demo=STD + """
p = PenBrush((255, 3))
assert p.pen == Pen(255, 3), p
"""),
dict(id='c23-width-scaled', property='C23',
  edits=[(C, """            if self.pen.width > 0:
                return self.pen.width
            else:
                return xform.transform_width(-self.pen.width)
""", """            if self.pen.width >= 1:
                return self.pen.width
            else:
                return xform.transform_width(abs(self.pen.width))
""")],
  needs='a pen thinner than a pixel',
  breaks='widths between 0 and 1 follow the map',
  demo=STD + """
assert PenBrush(('red', 0.5)).stroke_width(Transform().scale(10, 10)) == 0.5
"""),
dict(id='c24-hidden-members', property='C24',
  edits=[(M, """        with self.draw_space(dc):
            for name, elem in self.elems.items():
                paths.extend(elem.control_paths(dc))
""", """        with self.draw_space(dc):
            for name, elem in sorted(self.elems.items()):
                paths.extend(elem.control_paths(dc))
""")],
  needs='members whose names are not in alphabetical order, with control points shown',
  breaks='control points are drawn in the order of names',
  demo=STD + """
from x7.geom.drawing import DrawingContext
g = Group('g', pb, elems=[rect('b', 5, 5), rect('a', 1, 1)])
cp = g.control_paths(DrawingContext(None, Transform()))
assert cp[0].points[0].xy() == (5, 5), cp[0].points
"""),
dict(id='c24-shadow-white', property='C24',
  edits=[(M, """            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:
""", """            if draw.shadow_color and path.penbrush.fill_color:
""")],
  needs='the shadow of a shape filled with the transparent colour',
  breaks='shapes with a transparent filling cast a filled shadow',
  demo=STD + """
from x7.geom.drawing import DrawingContext
class D:
    def __init__(self): self.c = []
    def polygon(self, p, fill=None): self.c.append(fill)
    def line(self, *a, **k): pass
dc = DrawingContext(None, Transform())
dc.debug = False
dc.draw = D(); dc.shadow_color = 'grey'
rect('r', pen=PenBrush(None, TRANSPARENT)).draw(dc)
assert dc.draw.c == [TRANSPARENT], dc.draw.c
"""),
dict(id='c18-holder-last', property='C18',
  edits=[(A, """    def update(self, t):
        for animation in self.animations:
            animation.update(t)
""", """    def update(self, t):
        # The last animation of a point decides
        for animation in {id(a.point): a for a in self.animations}.values():
            animation.update(t)
""")],
  needs='two animations of one point, the second building on what the first did',
  breaks='only the last animation of a point is updated',
  demo=STD + """
from x7.geom.anim import *
from x7.geom.anim import AnimationHolder, AnimationGeneric, AnimationLinear
p = Point(0, 0)
h = AnimationHolder()
h.add(AnimationLinear(p, Point(10, 0)))
h.add(AnimationGeneric(p, lambda t, o, c: (c.x, c.y + 3)))
h.update(1)
assert p.xy() == (10, 3), p
"""),
dict(id='c18-sinus-start', property='C18',
  edits=[(A, """        t = (1.0 - cos(t * tau * self.frequency + self.offset * tau / 360)) * 0.5
""", """        t = (1.0 - cos((t * self.frequency + self.offset / 360) % 1 * tau)) * 0.5 if t else 0
""")],
  needs='a sinusoidal animation with an offset, at time 0',
  breaks='the start of a sinusoidal animation ignores its offset',
  demo=STD + """
from x7.geom.anim import AnimationSinusoidal
p = Point(0, 0)
a = AnimationSinusoidal(p, Point(10, 0), offset=180)
a.update(0)
assert abs(p.x - 10) < 1e-9, p
"""),
dict(id='c18-circular-wrap', property='C18',
  edits=[(A, """        theta = t * tau * self.frequency + self.offset
""", """        theta = (t % 1) * tau * self.frequency + self.offset
""")],
  needs='a fractional frequency and a time of 1 or more',
  breaks='a circular animation starts over at every whole time',
  demo=STD + """
from x7.geom.anim import AnimationCircular
p = Point(0, 0)
AnimationCircular(p, 10, 0.5).update(1)
assert abs(p.y + 10) < 1e-9, p
"""),
dict(id='c18-build-append', property='C18',
  edits=[(A, """        self.images = [self.build_one(t / steps, t) for t in range(steps)]
        return self.images
""", """        for t in range(steps):
            self.images.append(self.build_one(t / steps, t))
        return self.images
""")],
  needs='building all frames twice',
  breaks='building again keeps the frames of the first time',
  demo=STD + """
from x7.geom.anim import Builder
from PIL import Image
b = Builder(Image.new('RGBA', (20, 20)), Transform(), Group('g', pb, elems=[rect('r')]))
b.build_all(2)
assert len(b.build_all(3)) == 3
"""),
dict(id='c18-morph-clamp', property='C18',
  edits=[(A, """        for morph, orig, target in zip(morph_cp, orig_cp, target_cp):
            for m, o, tgt""", """        t = min(max(t, 0), 1)
        for morph, orig, target in zip(morph_cp, orig_cp, target_cp):
            for m, o, tgt""")],
  needs='a time function that overshoots 1',
  breaks='a morph never goes beyond its target',
  demo=STD + """
from x7.geom.anim import Morph
a, b = cv('a', (0, 0), (4, 0)), cv('b', (2, 0), (8, 0))
g = Group('g', pb, elems=[a])
m = Morph(g, a, b, lambda t: 2 * t)
m.update(1)
assert m.morph.control_points[0].c.xy() == (4, 0), m.morph.control_points[0]
"""),
dict(id='c30-scaled-size', property='C30',
  edits=[(A, """        images = images or self.images
        if bbox:
            images = [im.crop(box=bbox) for im in images]
        if scale == 1:
            scaled = images
        else:
            x, y = images[0].size
""", """        images = images or self.images
        x, y = images[0].size
        if bbox:
            images = [im.crop(box=bbox) for im in images]
        if scale == 1:
            scaled = images
        else:
""")],
  needs='scaling with a crop box',
  breaks='cropped frames are resized to the size before cropping',
  demo=STD + """
from x7.geom.anim import Builder
from PIL import Image
b = Builder(Image.new('RGBA', (20, 20)), Transform(), Group('g', pb, elems=[rect('r')]))
im = b.scaled(2, (0, 0, 10, 8), [Image.new('RGBA', (20, 20), 'red')])[0]
assert im.size == (5, 4), im.size
"""),
dict(id='c30-time-descending', property='C30',
  edits=[(AS, """                step_t = self.t_low + step * step_size
""", """                step_t = min(self.t_low + step * step_size, self.t_high)
""")],
  needs='an animation that runs backwards in time',
  breaks='every frame of an animation from high to low shows the last time',
  demo=STD + """
from x7.geom.anim_simple import SimpleAnimation
ts = []
SimpleAnimation(lambda dc, t: ts.append(t), steps=2, t_low=1.0, t_high=0.0, image_size=(10, 10)).animate()
assert ts == [1.0, 0.5, 0.0], ts
"""),
dict(id='c28-scaled-one', property='C28',
  edits=[(V, """        return VectorField(self.mesh, self.vx * sx, self.vy * sy)
""", """        vx = self.vx if sx == 1 else self.vx * sx
        vy = self.vy if sy == 1 else self.vy * sy
        return VectorField(self.mesh, vx, vy)
""")],
  needs='scaling one part only, then changing the result in place',
  breaks='a field scaled by one shares its vectors with the original',
  demo=STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 1, 1), 2).zeros()
s = f.scaled(1, 2)
s.vx[0, 0] = 9
assert f.vx[0, 0] == 0
"""),
dict(id='c28-zeros-shared', property='C28',
  edits=[(V, """        self.vx = vx if vx is not None else np.zeros(self.mesh.x_shape)
        self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
""", """        zeros = np.zeros(self.mesh.x_shape)
        self.vx = vx if vx is not None else zeros
        self.vy = vy if vy is not None else zeros
""")],
  needs='a field made without vectors whose vectors are then set',
  breaks='both parts of a new field are the same array',
  demo=STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 1, 1), 2).zeros()
f.vx[0, 0] = 9
assert f.vy[0, 0] == 0
"""),
dict(id='c28-one-part', property='C28',
  edits=[(V, """        self.vx = vx if vx is not None else np.zeros(self.mesh.x_shape)
        self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
""", """        if vx is None or vy is None:
            vx, vy = np.zeros(self.mesh.x_shape), np.zeros(self.mesh.x_shape)
        self.vx = vx
        self.vy = vy
""")],
  needs='a field given one part only',
  breaks='a field given one part only is zero everywhere',
  demo=STD + """
import numpy as np
from x7.geom.vec_field import Mesh, VectorField
f = VectorField(Mesh(BBox(0, 0, 1, 1), 2), vx=np.ones((2, 2)))
assert f.vx[0, 0] == 1
"""),
dict(id='c02-field-interp', property='C02',
  edits=[(V, """        return VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))
""", """        dup = VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))
        dup.interp_x, dup.interp_y = self.interp_x, self.interp_y
        return dup
""")],
  needs='a field that was looked up before it was copied, then changed in place',
  breaks='the copy looks its vectors up in the original',
  demo=STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 1, 1), 2).zeros()
f.lookup(0, 0)
c = f.copy()
c.vx[0, 0] = 5
assert c.lookup(0, 0)[0] == 5, c.lookup(0, 0)
"""),
dict(id='c29-wrong-row', property='C29',
  edits=[(B, """        points = curve_a.evaluate_multi(np.array(intersections[0]).T)
""", """        points = curve_a.evaluate_multi(np.array(intersections[-1]).T)
""")],
  needs='a crossing at different parameters on the two curves',
  breaks='the place of a crossing is taken with the parameter of the other curve',
  demo=STD + """
from x7.geom.bezier import bez_intersect
Z = Vector(0, 0)
L = lambda x1, y1, x2, y2: (ControlPoint(Point(x1, y1), Z, Vector((x2-x1)/3, (y2-y1)/3)), ControlPoint(Point(x2, y2), Vector((x1-x2)/3, (y1-y2)/3), Z))
p, = bez_intersect(*L(0, 0, 8, 0), *L(2, -4, 2, 1), as_points=True)
assert p.close(Point(2, 0), 1e-6), p
"""),
dict(id='c29-any-edge', property='C29',
  edits=[(B, """            if not edge.removed and edge.right == self and edge.right_right != not_this_one:
""", """            if not edge.removed and edge.right == self:
""")],
  needs='a curve that crosses itself more than once',
  breaks='the walk at a crossing goes straight on',
  demo=STD + """
from x7.geom.bezier import bez_self_intersect
import contextlib, io
V_ = Vector
up, left = V_(0, 4), V_(4, 0)
r = 0.5
cps = [ControlPoint(Point(r, 0), up, -up), ControlPoint(Point(0, r), -left, left), ControlPoint(Point(-r, 0), -up, up), ControlPoint(Point(0, -r), left, -left)]
with contextlib.redirect_stdout(io.StringIO()):
    out = bez_self_intersect(cps)
print(len(out), [len(c) for c in out])
assert (len(out), [len(c) for c in out]) == EXPECT
"""),
dict(id='c31-explain-kind', property='C31',
  edits=[(S, """        vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
        vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
        # .kind""", """        vals_n = [getattr(new_data, attr) for attr in self.ATTRS[:3]]
        vals_o = [getattr(old_data, attr) for attr in self.ATTRS[:3]]
        # .kind""")],
  needs='two control points that differ in their kind only',
  breaks='control points of different kinds are explained as close',
  demo=STUB + STD + """
from x7.geom.testing import *
from x7.geom import testing
class TC(testing.TestCaseGeomExtended):
    def runTest(self): pass
m = testing.ExtendedMatcherControlPoint(TC())
a = ControlPoint(Point(0, 0), Vector(1, 1), Vector(1, 1), 'sharp'); b = ControlPoint(Point(0, 0), Vector(1, 1), Vector(1, 1), 'smooth')
assert m.explain_mismatch(a, b)[0] is False
"""),
dict(id='c31-distance', property='C31',
  edits=[(S, """        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
""", """        if delta is not None and (first - second).length() > delta:
            return 'distance > %s' % delta
        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
""")],
  needs='a difference along the diagonal, inside the delta on either axis',
  breaks='a difference inside the delta on both axes is reported',
  demo=STUB + STD + """
from x7.geom import testing
class TC(testing.TestCaseGeomExtended):
    def runTest(self): pass
m = testing.ExtendedMatcherPoint(TC())
assert m.almost_equal(Point(0, 0), Point(0.9, 0.9), delta=1) is True
"""),
dict(id='c31-transform-str', property='C31',
  edits=[(S, """                        dc.append('%r),' % t)
""", """                        dc.append('%r),' % Transform(tuple(round(v, 6) for v in t.as_6tuple())))
""")],
  needs='a transform with more than six digits beside a curve',
  breaks='saved transforms are rounded',
  demo=STUB + STD + """
from x7.geom import testing
from x7.testing import support
p = testing.PicklerExtensionGeom(None)
t = Transform().scale(1/3, 1)
d = [('a', cv('a', (0, 0), (1, 1)), t)]
s = p.do_pickle(d, '')
assert eval(s, dict(p.methods())) == d, s
"""),
dict(id='c16-semicircle', property='C16',
  edits=[(U, """    if vl > r:
        raise""", """    if vl >= r:
        raise""")],
  needs='two points exactly a diameter apart',
  breaks='a half circle through two points is refused',
  demo=STUB + STD + """
from x7.geom.utils import arc2p
assert len(arc2p(1, Point(-1, 0), Point(1, 0), steps=4)) > 3
"""),
dict(id='c16-direction-none', property='C16',
  edits=[(U, """    elif direction == 'cw':
        sa = sa % 360
        ea = ea % 360
        if sa < ea:
            sa += 360
""", """    else:
        sa = sa % 360
        ea = ea % 360
        if sa < ea:
            sa += 360
""")],
  needs='an arc with no direction, from low to high',
  breaks='arcs without a direction run clockwise',
  demo=STUB + STD + """
from x7.geom.utils import arc
p = arc(1, 0, 90, steps=2, direction='none')
assert abs(p[1][0] - 0.7071) < 1e-3, p
"""),
dict(id='c16-cross-rel', property='C16',
  edits=[(U, """    return [p.xy() for p in [c-vx, c+vx, c, c-vy, c+vy]]


def plus""", """    c = c.fixed()
    pts = [c.copy() for _ in range(5)]
    for p, v in zip(pts, (-vx, vx, Vector(), -vy, vy)):
        p.set(p + v if v.x else c)
    return [p.xy() for p in (pts[0], pts[1], pts[2], pts[4], pts[3])]


def plus""")],
  needs='looking at the order of the arms of a cross',
  breaks='the second stroke of a cross is drawn the other way',
  demo=STUB + STD + """
from x7.geom.utils import cross
p = cross(2 ** 0.5)
assert abs(p[3][0] - 1) < 1e-9 and abs(p[3][1] + 1) < 1e-9, p
"""),
dict(id='c22-curve-restore', property='C22',
  edits=[(M, """        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp, ocp""", """        super().restore(other)
        if len(self.control_points) == len(other.control_points):
            for cp, ocp""")],
  needs='restoring a curve from one with another number of points',
  breaks='a refused restore has already taken the name, pen and transform',
  demo=STD + """
a = cv('a', (0, 0), (1, 1)); b = cv('b', (0, 0), (1, 1), (2, 2))
try:
    a.restore(b)
except Exception:
    pass
assert a.name == 'a', a.name
"""),
dict(id='c25-vrel-angle', property='C25',
  edits=[(G, """        return math.degrees(math.atan2(self.y, self.x))
""", """        return math.degrees(math.atan2(self._y, self._x))
""")],
  needs='the angle of a vector between two points',
  breaks='the angle of a point-to-point vector raises',
  demo=STD + """
assert abs(VectorRelative(Point(1, 1), Point(0, 0)).angle() - 45) < 1e-9
"""),
dict(id='c03-group-update', property='C03',
  edits=[(M, """        self.elems = dict(other.elems)
        self.points = dict(other.points)


    def transform""".replace('\n\n\n', '\n\n'), """        self.elems.update(other.elems)
        self.points.update(other.points)

    def transform""")],
  needs='a group that gained a member since it was saved',
  breaks='members added after the save are still there after restoring',
  demo=STD + """
g = Group('g', pb, elems=[rect('a')])
s = g.copy()
g.add('b', rect('b'))
g.restore(s)
assert list(g.elems) == ['a']
"""),
dict(id='c03-holes-zip', property='C03',
  edits=[(M, """        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]

    def transform""", """        self.outside = other.outside.copy()
        for mine, saved in zip(self.inside, other.inside):
            mine.restore(saved)

    def transform""")],
  needs='a shape that gained or lost a hole since it was saved',
  breaks='holes added after the save stay',
  demo=STD + """
h = ElemWithHoles('h', pb, rect('o'), [rect('a')])
s = h.copy()
h.inside.append(rect('b'))
h.restore(s)
assert h == s
"""),
dict(id='c01-reverse-inplace', property='C01',
  edits=[(B, """        return [cp.reversed() for cp in reversed(cps)]
""", """        cps.reverse()
        return [cp.reversed() for cp in cps]
""")],
  needs='looking at the list that was handed to reverse_list',
  breaks='reversing a list of control points turns the list given',
  demo=STD + """
cps = cv('a', (0, 0), (1, 1)).control_points
ControlPoint.reverse_list(cps)
assert cps[0].c.xy() == (0, 0)
"""),
dict(id='c13-flat-ellipse', property='C13',
  edits=[(M, """    r_y = r_x if r_y is None else r_y
""", """    r_y = r_y or r_x
""")],
  needs='an ellipse without height',
  breaks='a flat ellipse becomes a circle',
  demo=STD + """
e = ElemEllipse('e', pb, Point(0, 0), Point(4, 0))
assert all(cp.c.y == 0 for cp in e.make_control_points())
"""),
dict(id='c13-radius-zero', property='C13',
  edits=[(M, """    bez_90 = 4/3 * math.tan(math.radians(90/4))
    p1x, p1y = p1.xy()
""", """    bez_90 = 4/3 * math.tan(math.radians(90/4))
    radius = radius or 5.0
    p1x, p1y = p1.xy()
""")],
  needs='a rounded rectangle with radius zero',
  breaks='corners of radius zero are rounded',
  demo=STD + """
e = ElemRectangleRounded('e', pb, Point(0, 0), Point(40, 40), 0)
assert {cp.c.xy() for cp in e.make_control_points()} == {(0, 0), (0, 40), (40, 40), (40, 0)}
"""),
dict(id='c13-open-bbox', property='C13',
  edits=[(M, """        bb = self.control_points[0].bbox()
        for cp in self.control_points[1:]:
            bb = bb + cp.bbox()
        return bb
""", """        bb = BBox(None)
        last = len(self.control_points) - 1
        for idx, cp in enumerate(self.control_points):
            if self.closed or 0 < idx < last:
                bb = bb + cp.bbox()
            else:
                # The outer handles of an open curve are not used
                bb = bb + (BBox(cp.c, cp.r) if idx == 0 else BBox(cp.c, cp.l))
        return bb
""")],
  needs='an open curve whose unused outer handles stick out',
  breaks='the box of an open curve does not enclose its control points',
  demo=STD + """
c = cv('c', (0, 0), (4, 0), closed=False)
c.control_points[0].dl = Vector(-9, 0)
assert c.bbox().xl == -9, c.bbox()
"""),
dict(id='c15-limit-sign', property='C15',
  edits=[(M, """                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
""", """                scale = math.copysign(cls.OFFSET_PT_LIMIT, offset)
""")],
  needs='a very sharp corner on the side away from the offset',
  breaks='a limited offset goes to the wrong side',
  demo=STD + """
p = ElemCurve.offset_pt(Vector(-1, 0.001), Point(0, 0), Vector(-1, 0), 5)
q = ElemCurve.offset_pt(Vector(-1, -0.001), Point(0, 0), Vector(-1, 0), 5)
assert p.x * q.x < 0, (p, q)
"""),
dict(id='c24-fill-zero', property='C24',
  edits=[(M, """            do_fill = path.penbrush.filled
""", """            do_fill = bool(path.penbrush.fill_color)
""")],
  needs='a brush with the numeric colour 0',
  breaks='shapes filled with the colour number 0 are not filled',
  demo=STD + """
from x7.geom.drawing import DrawingContext
class D:
    def __init__(self): self.c = []
    def polygon(self, p, fill=None): self.c.append(fill)
    def line(self, *a, **k): pass
dc = DrawingContext(None, Transform()); dc.debug = False
dc.draw = D()
rect('r', pen=PenBrush(None, 0)).draw(dc)
assert dc.draw.c == [0], dc.draw.c
"""),
dict(id='c11-walk-manual', property='C11',
  edits=[(M, """        matrix = matrix or Transform()
        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            root = root""", """        matrix = matrix or Transform()
        with matrix.push():
            matrix.push()
            if self.xform:
                matrix.compose(self.xform)
            root = root"""), (M, """                xf = elem.transform(matrix)
                xf.name = root + '.' + xf.name
                yield xf

    def lookup""", """                xf = elem.transform(matrix)
                xf.name = root + '.' + xf.name
                yield xf
            matrix.pop()

    def lookup""")],
  needs='a shallow walk that is abandoned, or a member that cannot be transformed',
  breaks='an abandoned walk leaves a matrix on the stack',
  demo=STD + """
t = Transform()
g = Group('g', pb, elems=[rect('a'), rect('b')], xform=Transform().scale(2, 2))
w = g.iter_elems_transformed(None, t)
next(w); w.close()
assert not t.stack
"""),
]
