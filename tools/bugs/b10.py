G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c01-simplify-cleans', property='C01',
  edits=[(T, '''        a = 0 if near_zero(a) else a
        b = 0 if near_zero(b) else b
''', '''        mat = self._mat.ndmat
        mat[np.abs(mat) < 1e-9] = 0
        a = 0 if near_zero(a) else a
        b = 0 if near_zero(b) else b
''')],
  needs='a matrix with a tiny entry', breaks='asking for the parts of a transform changes the transform',
  demo=STD + """
t = Transform((1, 0.0, 5, 0.0, 1, 1e-10))
before = t.as_6tuple()
t.simplify()
assert t.as_6tuple() == before
"""),
dict(id='c01-radius-kept', property='C01',
  edits=[(M, '''    def make_control_points(self) -> List[ControlPoint]:
        return make_rounded_rect_cps(self.p1, self.p2, self.radius)
''', '''    def make_control_points(self) -> List[ControlPoint]:
        size = self.bbox_int().size()
        if 2 * self.radius > min(size):
            self.radius = min(size) / 2
        return make_rounded_rect_cps(self.p1, self.p2, self.radius)
''')],
  needs='a radius larger than half the rectangle', breaks='looking at the paths of the shape shrinks its radius',
  demo=STD + """
e = ElemRectangleRounded('r', pb, Point(0, 0), Point(4, 2), 5)
e.as_curves()
assert e.radius == 5
"""),
dict(id='c02-one-hole', property='C02',
  edits=[(M, '''    def copy(self):
        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside], self.closed, self.xform.copy())
''', '''    def copy(self):
        inside = [e.copy() for e in self.inside] if len(self.inside) > 1 else self.inside
        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(), inside, self.closed, self.xform.copy())
''')],
  needs='a shape with exactly one hole', breaks='the copy shares the hole',
  demo=STD + """
h = ElemWithHoles('h', pb, ElemRectangle('o', pb, Point(-9, -9), Point(9, 9)), [rect('a')])
c = h.copy()
c.inside[0].p1.setxy(-3, -3)
assert h.inside[0].p1.xy() == (0, 0)
"""),
dict(id='c03-cp-round', property='C03',
  edits=[(B, '''        self.c = copy.c.copy()
        self.dl = copy.dl.copy()
        self.dr = copy.dr.copy()
        self.kind = copy.kind
''', '''        for attr in ('c', 'dl', 'dr'):
            mine, saved = getattr(self, attr), getattr(copy, attr)
            if not mine.close(saved, 1e-6):
                setattr(self, attr, saved.copy())
        self.kind = copy.kind
''')],
  needs='a move of less than a millionth, or a relative point moved with its base', breaks='restoring leaves the point where it was moved to',
  demo=STD + """
cp = ControlPoint(Point(0, 0), Vector(1, 2), Vector(3, 4))
saved = cp.copy()
cp.c.setxy(5e-7, 0)
cp.restore(saved)
assert cp.c.xy() == (0, 0)
"""),
dict(id='c04-calc-zero', property='C04',
  edits=[(G, '''            self.scale == other.scale and
            self.base == other.base
''', '''            self.xy() == other.xy() and
            self.base == other.base
''')],
  needs='computed points of different scale whose base has no offset', breaks='points with different scales are equal',
  demo=STD + """
b = PointRelative(0, 0, Point(1, 2))
assert PointCalc(b, 2) != PointCalc(b, 3)
"""),
dict(id='c04-holes-prefix', property='C04',
  edits=[(M, '''            self.outside == other.outside and
            self.inside == other.inside
''', '''            self.outside == other.outside and
            all(mine == theirs for mine, theirs in zip(self.inside, other.inside))
''')],
  needs='shapes with different numbers of holes', breaks='a shape with one hole more is equal',
  demo=STD + """
def mk(*holes):
    return ElemWithHoles('h', pb, ElemRectangle('o', pb, Point(-9, -9), Point(9, 9)), list(holes))
assert mk(rect('a')) != mk(rect('a'), rect('b', 4))
"""),
dict(id='c05-length-axis', property='C05',
  edits=[(G, '''        return math.hypot(*self.xy())
''', '''        x, y = self.xy()
        if not x or not y:
            return x + y        # Along an axis: no rounding
        return math.hypot(x, y)
''')],
  needs='a vector along an axis, pointing down or left', breaks='its length is negative',
  demo=STD + """
assert Vector(0, -3).length() == 3
"""),
dict(id='c06-vrel-points', property='C06',
  edits=[(G, '''    def copy(self) -> 'VectorRelative':
''', '''    def fixed(self) -> 'Vector':
        """A vector between absolute points depends on nothing else"""
        if type(self._p1) is Point and type(self._p2) is Point:
            return self
        return super().fixed()

    def copy(self) -> 'VectorRelative':
''')],
  needs='a vector between two plain points', breaks='its fixed version still follows the points',
  demo=STD + """
a, b = Point(3, 4), Point(0, 0)
v = VectorRelative(a, b).fixed()
a.setxy(7, 7)
assert v.xy() == (3, 4)
"""),
dict(id='c07-grow-flat', property='C07',
  edits=[(G, '''        x, y = point.xy()
        if self.xl is None:
            self.xl = self.xh = x
''', '''        x, y = point.xy()
        if self.is_empty:
            self.xl = self.xh = x
''')],
  needs='a box without area growing', breaks='the points it covered before are lost',
  demo=STD + """
b = BBox(0, 0, 4, 0)
b.grow(Point(1, 1))
assert b == BBox(0, 0, 4, 1)
"""),
dict(id='c08-overlap-flat', property='C08',
  edits=[(G, '''        if self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl:
            return False
        return True
''', '''        if other.is_empty:
            return self.contains_pt(other.center)
        if self.xl >= other.xh or self.xh <= other.xl or self.yl >= other.yh or self.yh <= other.yl:
            return False
        return True
''')],
  needs='a flat box crossing the border of another', breaks='boxes sharing points inside do not overlap, depending on which is asked',
  demo=STD + """
a, b = BBox(0, 0, 2, 2), BBox(1, 1, 9, 1)
assert a.overlaps(b) == b.overlaps(a)
"""),
dict(id='c11-holes-abandoned', property='C11',
  edits=[(M, '''        matrix = matrix or Transform()
        with matrix.push().compose(self.xform):
            base = '%s.%s' % (root, self.name) if root else self.name
            xf = self.outside.transform(matrix)
            xf.name = base+'.outside.'+xf.name
            yield xf
            for elem in self.inside:
                xf = elem.transform(matrix)
                xf.name = base+'.inside.'+xf.name
                yield xf
''', '''        matrix = matrix or Transform()
        matrix.push().compose(self.xform)
        try:
            base = '%s.%s' % (root, self.name) if root else self.name
            xf = self.outside.transform(matrix)
            xf.name = base+'.outside.'+xf.name
            yield xf
            for elem in self.inside:
                xf = elem.transform(matrix)
                xf.name = base+'.inside.'+xf.name
                yield xf
        except Exception:
            matrix.pop()
            raise
        else:
            matrix.pop()
''')],
  needs='a walk over a shape with holes that is abandoned', breaks='the matrix pushed for the walk stays',
  demo=STD + """
h = ElemWithHoles('h', pb, ElemRectangle('o', pb, Point(-9, -9), Point(9, 9)), [rect('a')], xform=Transform().translate(3, 4))
m = Transform()
w = h.iter_elems_transformed(None, m)
next(w)
w.close()
assert m.stack == [] and m == Transform()
"""),
dict(id='c12-relative-first', property='C12',
  edits=[(T, '''        elif isinstance(pts[0], BasePoint):
            return [Point(x, y) for x, y, *_ in np_pts]
''', '''        elif isinstance(pts[0], Point):
            return [Point(x, y) for x, y, *_ in np_pts]
''')],
  needs='a list whose first point is relative or computed', breaks='pairs come back instead of points',
  demo=STD + """
out = Transform().transform_pts([PointRelative(1, 2, Point(3, 4)), Point(0, 0)])
assert isinstance(out[0], Point)
"""),
dict(id='c15-area-centres', property='C15',
  edits=[(M, '''        points = [(cp.l, cp.c, cp.r) for cp in transformed.control_points]
        points = [pt for pts in points for pt in pts]
        if polygon_area(points) < 0:
''', '''        points = [cp.c for cp in transformed.control_points]
        if polygon_area(points) < 0:
''')],
  needs='a clockwise curve of two control points, round by its handles only', breaks='it is offset to the other side',
  demo=STD + """
up = Vector(0, 5)
def lens(s):
    return ElemCurve('l', pb, [ControlPoint(Point(-9, 0), up * s, up * -s), ControlPoint(Point(9, 0), up * -s, up * s)])
a = lens(1).offset(1).bbox().height
b = lens(-1).offset(1).bbox().height
assert abs(a - b) < 1e-6, (a, b)
"""),
dict(id='c21-unnamed-group', property='C21',
  edits=[(M, '''                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
''', '''                yield from elem.iter_elems('.'.join(n for n in (root, self.name) if n), matrix)
''')],
  needs='a group without a name inside another', breaks='the path of its members skips it and leads nowhere',
  demo=STD + """
g = Group('top', pb, elems=[Group('', pb, elems=[rect('a')])])
path, e, m = next(g.iter_elems())
assert g.lookup(path.partition('.')[2]) is e
"""),
dict(id='c22-curve-restore-late', property='C22',
  edits=[(M, '''        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp, ocp in zip(self.control_points, other.control_points):
''', '''        super().restore(other)
        if len(self.control_points) == len(other.control_points):
            for cp, ocp in zip(self.control_points, other.control_points):
''')],
  needs='a refused restore', breaks='name, pen and transform have been replaced already',
  demo=STD + """
a, b = cv('a', (0, 0)), cv('b', (0, 0), (1, 1))
try: a.restore(b)
except Exception: pass
assert a.name == 'a'
"""),
dict(id='c23-table-fallback', property='C23',
  edits=[(C, '''        self.edge_clear = edge_clear or default
''', '''        self.edge_clear = edge_clear or edge_filled or default
''')],
  needs='a table given edge_filled but not edge_clear', breaks='transparent shapes are filled',
  demo=STD + """
t = PensByShape(edge_filled=PenBrush('red', 'blue'))
assert not t['edge_clear'].filled
"""),
dict(id='c25-bbox-relative', property='C25',
  edits=[(G, '''                if yh or not isinstance(xl, BasePoint) or not isinstance(yl, BasePoint):
''', '''                if yh or not isinstance(xl, Point) or not isinstance(yl, Point):
''')],
  needs='a box of relative points', breaks='it is refused',
  demo=STD + """
b = BBox(PointRelative(1, 1, Point(0, 0)), Point(3, 3))
assert b == BBox(1, 1, 3, 3)
"""),
dict(id='c25-target-relative', property='C25',
  edits=[(A, '''        assert isinstance(target, BasePoint)
''', '''        assert isinstance(target, Point)
''')],
  needs='an animation towards a relative point', breaks='it is refused',
  demo=STD + """
from x7.geom.anim import *
p = Point(0, 0)
AnimationLinear(p, PointRelative(1, 1, Point(3, 3))).update(1)
assert p.xy() == (4, 4)
"""),
dict(id='c28-scaled-negative', property='C28',
  edits=[(V, '''        max_mag = np.amax(mags)
''', '''        max_mag = max(np.amax(np.abs(self.vx)), np.amax(np.abs(self.vy)))
''')],
  needs='a field whose longest vector is slanted', breaks='normalising leaves vectors longer than one',
  demo=STD + """
from x7.geom.vec_field import *
vf = Mesh(BBox(0, 0, 1, 1), 2).zeros()
vf.vx[0, 0] = 3; vf.vy[0, 0] = 4
n = vf.normalized()
assert abs(n.vx[0, 0] - 0.6) < 1e-9
"""),
dict(id='c30-grey-base', property='C30',
  edits=[(D, '''        if not image.mode == 'RGBA':
            image = image.convert('RGBA')
''', '''        if image.mode in ('RGB', 'P'):
            image = image.convert('RGBA')
''')],
  needs='a grey picture as background', breaks='the picture cannot be composed',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('L', (4, 4), 7), None)
assert dc.image(False).mode == 'RGBA'
"""),
dict(id='c30-crop-not-box', property='C30',
  edits=[(D, '''        x1, y1, x2, y2 = map(int, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
        return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)
''', '''        x1, y1, x2, y2 = map(int, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
        return x1, min(y1, y2), x2, max(y1, y2)
''')],
  needs='a crop under a matrix that mirrors x', breaks='the box of the crop is turned inside out',
  demo=STD + """
from PIL import Image
dc = DrawingContext(Image.new('RGBA', (40, 40)), Transform().scale(-1, 1).translate(30, 0))
assert dc.crop_to_pixels((0, 0, 10, 10)) == (20, 0, 30, 10)
"""),
dict(id='c31-empty-list', property='C31',
  edits=[(S, '''            if all(isinstance(d, Elem) for d in data):
                dc''', '''            if any(isinstance(d, Elem) for d in data):
                dc''')],
  needs='a list of shapes and other things', breaks='the list is taken for a list of shapes and fails',
  demo=STUB + STD + """
from x7.geom.testing import *
from x7.testing import support
x = PicklerExtensionGeom(None)
assert x.do_pickle([rect('a'), 3], '') is None
"""),
dict(id='c31-close-kind', property='C31',
  edits=[(S, '''        if all(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):
''', '''        if any(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):
''')],
  needs='control points of which one part agrees', breaks='they are called close',
  demo=STUB + STD + """
from x7.geom.testing import *
m = ExtendedMatcherControlPoint(None)
a = ControlPoint(Point(0, 0), Vector(1, 1), Vector(2, 2))
b = ControlPoint(Point(9, 0), Vector(1, 1), Vector(2, 2))
assert m.explain_mismatch(a, b)[0] is False
"""),
]
