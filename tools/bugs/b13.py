G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c07-bbox-memo', property='C13',
  edits=[(M, """        bbox = BBox(None)
        for elem in self.elems.values():
            bbox = bbox + elem.bbox()
        return bbox

    def bbox_int_update(self, bbox: BBox, context=None):
        raise ValueError("Can't bbox_int_update a Group yet")
""", """        key = [(id(elem), elem.xform.as_6tuple()) for elem in self.elems.values()]
        seen, bbox = getattr(self, '_covered', (None, None))
        if seen != key:
            bbox = BBox(None)
            for elem in self.elems.values():
                bbox = bbox + elem.bbox()
            self._covered = key, bbox
        return bbox.copy()

    def bbox_int_update(self, bbox: BBox, context=None):
        raise ValueError("Can't bbox_int_update a Group yet")
""")],
  needs='the box of a group asked for before and after a corner of a member moved',
  breaks='the box of a group stays when a member is reshaped',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'))
r = rect('r')
g.add('r', r)
g.bbox()
r.p2.setxy(10, 10)
assert g.bbox() == BBox(0, 0, 10, 10), g.bbox()
"""),
dict(id='c14-bez-memo', property='C14',
  edits=[(B, """    (ax, ay), (bx, by), (cx, cy), (dx, dy) = (p.xy() if isinstance(p, BasePoint) else p for p in raw_pts)

    path = [(ax, ay)]
""", """    key = tuple(p.xy() if isinstance(p, BasePoint) else p for p in raw_pts), steps
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = key[0]
    if key in _PATHS:
        return list(_PATHS[key])
    path = [(ax, ay)]
"""), (B, """        path = list(xy_flatten(path))
    # print(path)
    return path
""", """        path = list(xy_flatten(path))
        if len(_PATHS) < 64:
            _PATHS[key] = tuple(path)
    # print(path)
    return path
"""), (B, """def bez(raw_pts: PointList, steps=80, as_xy=False):
""", """_PATHS = {}


def bez(raw_pts: PointList, steps=80, as_xy=False):
""")],
  needs='one curve asked for as numbers and then as pairs',
  breaks='pairs asked for after numbers are numbers',
  demo=STUB + STD + """
p = [(0, 0), (1, 2), (3, 2), (4, 0)]
a = bez(p, 4)
b = bez(p, 4, as_xy=True)
assert len(b) == 5 and b[0] == (0, 0), b
"""),
dict(id='c11-exit-clears', property='C11',
  edits=[(T, """    def __exit__(self, exc_type, exc_val, exc_tb):
        self.pop()
""", """    def __exit__(self, exc_type, exc_val, exc_tb):
        self.pop()
        while exc_type and self.stack:
            self.pop()      # Back to where it all began
""")],
  needs='a matrix pushed by the client, and something that fails inside',
  breaks='a failure pops matrices that were pushed outside',
  demo=STUB + STD + """
t = Transform().translate(1, 2)
t.push().translate(5, 5)
try:
    with t.push().scale(2, 2):
        raise KeyError(1)
except KeyError:
    pass
assert len(t.stack) == 1 and t == Transform().translate(6, 7)
"""),
dict(id='c15-offset-kind', property='C15',
  edits=[(M, """            cps.append(ControlPoint(co, bo-co, do-co, cm.kind))
""", """            cps.append(ControlPoint(co, bo-co, do-co, cm.kind if offset else 'smooth'))
""")],
  needs='a curve with sharp points offset by nothing',
  breaks='a curve offset by nothing has smooth points only',
  demo=STUB + STD + """
c = cv('c', (0, 0), (5, 0), (2, 4))
for cp in c.control_points:
    cp.kind = 'sharp'
assert [cp.kind for cp in c.offset(0).control_points] == ['sharp'] * 3
"""),
dict(id='c16-side-scale', property='C16',
  edits=[(U, """    clv = (v.normal()*side).unit()
""", """    clv = v.normal().unit()*side
""")],
  needs='a side other than 1 and -1',
  breaks='the centre of the arc is too far away',
  demo=STUB + STD + """
from x7.geom.utils import arc2p
a = arc2p(2, Point(0, 0), Point(2, 0), 4, side=1)
b = arc2p(2, Point(0, 0), Point(2, 0), 4, side=5)
assert all(abs(p - q) < 1e-9 for u, v in zip(a, b) for p, q in zip(u, v)), (a[1], b[1])
"""),
dict(id='c17-closed-default', property='C17',
  edits=[(M, """        basic = '%s(%r, %s, closed=%r, ' % (
            type(self).__name__, self.name, penbrush, self.closed)
""", """        basic = '%s(%r, %s, ' % (type(self).__name__, self.name, penbrush)
        if isinstance(self, (Group, ElemP1P2)) is not self.closed or isinstance(self, ElemP1P2):
            basic += 'closed=%r, ' % self.closed
""")],
  needs='a closed group',
  breaks='a group that is closed comes back open',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'), closed=True)
ns = {}
exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c23-nocolor-is', property='C23',
  edits=[(C, """    return None if color == NOCOLOR else color
""", """    return None if color is NOCOLOR else color
""")],
  needs='the word for no colour read from somewhere else',
  breaks='NoColor that is not the very constant is a colour',
  demo=STUB + STD + """
assert not Colors('black', ''.join(['No', 'Color'])).filled
"""),
dict(id='c23-colors-zero', property='C23',
  edits=[(C, """        return self.fill is not None

    def __repr__""", """        return bool(self.fill)

    def __repr__""")],
  needs='shapes filled with colour number 0',
  breaks='colours filled with 0 do not count as filled',
  demo=STUB + STD + """
assert Colors('black', 0).filled
"""),
dict(id='c24-hole-open', property='C24',
  edits=[(M, """                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=True)
""", """                        path.penbrush = edge_brush
                        fill_path.extend(path.points, closed=path.closed)
""")],
  needs='a hole that is an open curve',
  breaks='the filled area of a shape whose hole is open is not led back',
  demo=STUB + STD + """
h = ElemWithHoles('h', PenBrush('red', 'blue'), rect('o'), [cv('i', (0.2, 0.2), (0.4, 0.4), closed=False)])
a = ElemWithHoles('h', PenBrush('red', 'blue'), rect('o'), [cv('i', (0.2, 0.2), (0.4, 0.4), closed=True)])
dc = DrawingContext(None, Transform())
p = h.paths(dc)[0].points.tolist()
assert p[-1] == h.paths(dc)[1].points.tolist()[-1], p[-1]
"""),
dict(id='c25-line-str', property='C25',
  edits=[(G, """        return '%s @ %s' % (self.origin.round(2), self.direction.round(2))
""", """        return '%s @ %s' % (self.origin.round(2), Vector(round(self.direction._x, 2), round(self.direction._y, 2)))
""")],
  needs='a line whose direction is the difference of two points',
  breaks='such a line cannot be printed',
  demo=STUB + STD + """
str(Line(Point(0, 0), VectorRelative(Point(1, 1), Point(0, 0))))
"""),
dict(id='c25-area-relative', property='C25',
  edits=[(G, """    return sum(a.x*b.y - a.y*b.x for a, b in iter_rotate(points))/2
""", """    return sum(a._x*b._y - a._y*b._x for a, b in iter_rotate(points))/2
""")],
  needs='a polygon with a relative corner',
  breaks='no area for polygons with computed corners',
  demo=STUB + STD + """
p = Point(0, 0)
assert polygon_area([p, PointRelative(1, 0, p), Point(1, 1)]) == 0.5
"""),
dict(id='c03-zero-handle', property='C03',
  edits=[(B, """        self.dl = copy.dl.copy()
        self.dr = copy.dr.copy()
        self.kind = copy.kind
""", """        self.dl = copy.dl and copy.dl.copy()
        self.dr = copy.dr and copy.dr.copy()
        self.kind = copy.kind
""")],
  needs='a point without handles restored, and pulled out afterwards',
  breaks='a restored point shares its empty handles with what was saved',
  demo=STUB + STD + """
a = ControlPoint(Point(1, 2), Vector(), Vector())
b = ControlPoint(Point(3, 4), Vector(1, 1), Vector())
b.restore(a)
b.dl.setxy(5, 5)
assert a.dl == Vector(), a
"""),
dict(id='c03-holes-in-place', property='C03',
  edits=[(M, """        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]

    def transform""", """        self.outside = other.outside.copy()
        if self.inside == other.inside:
            return      # Nothing was changed
        self.inside = [e.copy() for e in other.inside]

    def transform""")],
  needs='holes restored from a shape made of the very same holes',
  breaks='a restored shape shares unchanged holes with what it was restored from',
  demo=STUB + STD + """
i = rect('i', 0.1, 0.1)
a = ElemWithHoles('h', PenBrush('red'), rect('o'), [i])
b = ElemWithHoles('h', PenBrush('red'), rect('o'), [i])
b.restore(a)
b.inside[0].p1.setxy(0.3, 0.3)
assert a.inside[0].p1.xy() == (0.1, 0.1)
"""),
dict(id='c04-bbox-empty', property='C04',
  edits=[(G, """        return type(self) is type(other) and \\
            self.xl == other.xl and self.yl == other.yl and \\
            self.xh == other.xh and self.yh == other.yh
""", """        if type(self) is not type(other) or self.is_none != other.is_none:
            return False
        return self.is_none or (self.p1 == other.p1 and self.size() == other.size())
""")],
  needs='nothing (an equivalent way to write it, up to rounding)',
  breaks='boxes so big that their sizes are rounded compare equal',
  demo=STUB + STD + """
a, b = BBox(-1e17, 0, 1, 1), BBox(-1e17, 0, 2, 1)
assert a != b
"""),
dict(id='c04-name-blank', property='C04',
  edits=[(G, """        return type(self) is type(other) and self.name == other.name

    def close""", """        return type(self) is type(other) and (self.name or None) == (other.name or None)

    def close""")],
  needs='a point with an empty name and one without a name',
  breaks='a point named by the empty word equals one without a name',
  demo=STUB + STD + """
assert Point(1, 2, '') != Point(1, 2)
"""),
dict(id='c05-div-int', property='C05',
  edits=[(G, """        x, y = self.xy()
        return Vector(x / other, y / other)
""", """        x, y = self.xy()
        if isinstance(x, int) and isinstance(y, int) and isinstance(other, int) and other > 1:
            return Vector(x // other, y // other)
        return Vector(x / other, y / other)
""")],
  needs='a vector of whole numbers divided by a whole number',
  breaks='the quotient is rounded down',
  demo=STUB + STD + """
assert (Vector(3, 4) / 2).xy() == (1.5, 2)
"""),
dict(id='c06-calc-fixed-zero', property='C06',
  edits=[(G, """        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y
""", """        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y

    def fixed(self):
        return super().fixed() if self.scale else self.base.base
""")],
  needs='a computed point of scale 0',
  breaks='fixing such a point gives the live point it starts from',
  demo=STUB + STD + """
b = Point(1, 2)
c = PointCalc(PointRelative(3, 4, b), 0)
f = c.fixed()
b.setxy(9, 9)
assert f.xy() == (1, 2), f
"""),
dict(id='c07-sort-elif', property='C07',
  edits=[(G, """    def sort(self):
        self.xl, self.xh = min(self.xl, self.xh), max(self.xl, self.xh)
        self.yl, self.yh = min(self.yl, self.yh), max(self.yl, self.yh)
""", """    def sort(self):
        if self.xl > self.xh:
            self.xl, self.xh = self.xh, self.xl
        elif self.yl > self.yh:
            self.yl, self.yh = self.yh, self.yl
""")],
  needs='a box turned over in both directions',
  breaks='sorting puts only one direction in order',
  demo=STUB + STD + """
b = BBox(0, 0, 1, 1)
b[0], b[1] = 5, 6
b.sort()
assert b == BBox(1, 1, 5, 6), b
"""),
dict(id='c30-autocrop-left', property='C30',
  edits=[(A, """            bb = (max(0, xl - radius), max(0, yl - radius), min(xs, xh + radius), min(ys, yh + radius))
""", """            bb = (max(0, xl) - radius, max(0, yl) - radius, min(xs, xh + radius), min(ys, yh + radius))
""")],
  needs='frames with something near the left or upper border',
  breaks='saved frames are cropped to a box that reaches out of the picture',
  demo=STUB + STD + """
from PIL import Image
from x7.geom.anim import Builder
b = Builder(Image.new('RGBA', (40, 40)), Transform(), Group('g', pb))
im = Image.new('RGBA', (40, 40), (0, 0, 0, 0))
im.putpixel((2, 2), (255, 0, 0, 255))
seen = []
b.scaled = lambda scale, bbox=None, images=None: seen.extend(images) or images
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    b.save_animation(os.path.join(d, 'x.gif'), [im])
assert seen[0].size == (19, 19), seen[0].size
"""),
dict(id='c21-lookup-exact', property='C21',
  edits=[(M, """        elif head == 'inside':
            for elem in self.inside:
                if tail == elem.name:
                    return elem
""", """        elif head == 'inside':
            for elem in self.inside:
                if elem.name.startswith(tail):
                    return elem
""")],
  needs='two holes of which one name begins with the other',
  breaks='a hole is found under the beginning of its name',
  demo=STUB + STD + """
h = ElemWithHoles('h', PenBrush('red'), rect('o'), [rect('ab'), rect('a')])
assert h.lookup('inside.a').name == 'a'
"""),
dict(id='c21-builder-default', property='C21',
  edits=[(M, """        pens_by_shape = pens_by_shape or self.pens_by_shape
        shape_kind = shape_kind or self.default_shape_kind
        g = GroupBuilder(name, pens_by_shape=pens_by_shape, shape_kind=shape_kind)
""", """        kwds = {}
        if shape_kind or pens_by_shape is None:
            kwds['shape_kind'] = shape_kind or self.default_shape_kind
        g = GroupBuilder(name, pens_by_shape=pens_by_shape or self.pens_by_shape, **kwds)
""")],
  needs='a sub-group with pens of its own under a builder whose default kind is not edge',
  breaks='a sub-group with other pens forgets the kind of shape it takes from its parent',
  demo=STUB + STD + """
b = GroupBuilder('b', PensByShape(), shape_kind='filled')
s = b.group('s', PensByShape(filled=PenBrush(None, 'green')))
e = s.rect('r', Point(0, 0), Point(1, 1))
assert e.penbrush == PenBrush(None, 'green'), e.penbrush
"""),
dict(id='c22-bbox-partial', property='C22',
  edits=[(T, """            sx, sy = target.width / start.width, target.height / start.height
            self.translate(-start.xl, -start.yl)
            self.scale(sx, sy)
            self.translate(target.xl, target.yl)
""", """            self.translate(-start.xl, -start.yl)
            self.scale(target.width / start.width, target.height / start.height)
            self.translate(target.xl, target.yl)
""")],
  needs='a fit from a box without width',
  breaks='a fit that fails has moved the map already',
  demo=STUB + STD + """
t = Transform()
try:
    t.scale_bbox(BBox(1, 1, 1, 2), BBox(0, 0, 1, 1))
except ZeroDivisionError:
    pass
assert t == Transform(), t
"""),
dict(id='c27-crossing-order', property='C27',
  edits=[(G, """        return other.origin + other.direction*t_other, t_self, t_other
""", """        if t_other == 0:
            return other.origin, t_self, t_other
        return other.origin + other.direction*t_other, t_self, t_other
""")],
  needs='a crossing at the start of the other segment, moved afterwards',
  breaks='a crossing at the start of a segment is the origin of that segment itself',
  demo=STUB + STD + """
o = Line(Point(1, 1), Vector(2, 3))
r = Line(Point(0, 0), Vector(4, 4)).segment_intersection(o)
p = r[0]
p.setxy(9, 9)
assert o.origin.xy() == (1, 1), o
"""),
dict(id='c28-smooth-edges', property='C28',
  edits=[(V, """                for x in range(max(0, i - r), min(shape[0], i + r)):
                    for y in range(max(0, j - r), min(shape[1], j + r)):
""", """                for x in range(max(0, i - r), min(shape[0], i + r)):
                    for y in range(max(0, j - r), min(shape[0] - 1, j + r)):
""")],
  needs='a field smoothed near its upper border',
  breaks='smoothing leaves out the last row',
  demo=STUB + STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 4, 4), 5).zeros()
f.vx[0, 4] = 3
g = f.smoothed()
assert g.vx[1, 3] != 0
"""),
dict(id='c10-inverse-list', property='C10',
  edits=[(T, """        if self._inverse is None:
            self._inverse = np.linalg.inv(self._mat.ndmat)
        return self._inverse
""", """        if self._inverse is None or len(self.stack) != self._depth:
            self._inverse, self._depth = np.linalg.inv(self._mat.ndmat), len(self.stack)
        return self._inverse
"""), (T, """        self._mat = self.stack.pop()
        self._inverse = None
""", """        self._mat = self.stack.pop()
"""), (T, """        self._inverse = None
        self.stack = []
""", """        self._inverse = None
        self._depth = 0
        self.stack = []
""")],
  needs='a pop and another push between two uses of the inverse',
  breaks='the inverse of a matrix popped since is used at the same depth',
  demo=STUB + STD + """
t = Transform()
with t.push().translate(5, 5):
    t.untransform(0, 0)
with t.push():
    assert tuple(map(float, t.untransform(1, 1))) == (1, 1), t.untransform(1, 1)
"""),
dict(id='c12-points-ints', property='C12',
  edits=[(T, """        return np.array([(x, y, 1) for x, y in points]).T

    @staticmethod""", """        x, y = points[0]
        kind = int if isinstance(x, int) and isinstance(y, int) else float
        return np.array([(x, y, 1) for x, y in points], dtype=kind).T

    @staticmethod""")],
  needs='a list whose first point has whole numbers and another has not',
  breaks='points after a whole one are rounded',
  demo=STUB + STD + """
t = Transform()
r = t.transform_pts([(1, 2), (0.5, 0.25)])
assert tuple(map(float, r[1])) == (0.5, 0.25), r
"""),
dict(id='c09-translate-int', property='C09',
  edits=[(T, """        return np.array([[1, 0, dx], [0, 1, dy], [0, 0, 1]])
""", """        mat = np.array([[1, 0, dx], [0, 1, 0], [0, 0, 1]])
        mat[1, 2] = dy
        return mat
""")],
  needs='a translation by a whole number in x and a fraction in y',
  breaks='the fraction is cut off',
  demo=STUB + STD + """
x, y = Transform().translate(1, 0.5).transform(0, 0)
assert (x, y) == (1, 0.5), (x, y)
"""),
dict(id='c02-points-given', property='C02',
  edits=[(M, """        xform = matrix.copy().compose(self.xform)
        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
""", """        xform = matrix.copy().compose(self.xform)
        return Group(self.name, self.penbrush, self.hidden, xform, self.elems, self.points, self.closed)
""")],
  needs='a transformed group with points, to which another point is added',
  breaks='a transformed group shares its table of points',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'), points={'q': Point(0, 0)})
c = g.transform(Transform())
c.add_pt('p', Point(1, 2))
assert list(g.points) == ['q']
"""),
dict(id='c18-circular-zero', property='C18',
  edits=[(A, """        theta = t * tau * self.frequency + self.offset
        self.point.setxy""", """        if not self.frequency:
            return      # Does not go round
        theta = t * tau * self.frequency + self.offset
        self.point.setxy""")],
  needs='a circular animation of frequency 0',
  breaks='a point that does not go round stays in the centre',
  demo=STUB + STD + """
from x7.geom.anim import AnimationCircular
p = Point(0, 0)
AnimationCircular(p, 2, 0).update(0.5)
assert p.xy() == (0, 2), p
"""),
dict(id='c18-sinus-same', property='C18',
  edits=[(A, """        tx, ty = self.target.xy()
        s = 1 - t
        self.point.setxy""", """        tx, ty = self.target.xy()
        if (tx, ty) == (ox, oy):
            return      # Nowhere to go
        s = 1 - t
        self.point.setxy""")],
  needs='a target that is moved onto the place the point started from',
  breaks='a point stays out when its target has come back',
  demo=STUB + STD + """
from x7.geom.anim import AnimationSinusoidal
p, t = Point(0, 0), Point(4, 4)
a = AnimationSinusoidal(p, t)
a.update(0.5)
t.setxy(0, 0)
a.update(0.5)
assert p.xy() == (0, 0), p
"""),
]
