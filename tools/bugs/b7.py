G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c01-segment-flip', property='C01',
  edits=[(G, """        self_normal = self.direction.normal()
        t_other = self_normal.dot(self.origin-other.origin)/self_normal.dot(other.direction)
        if t_other < 0""", """        if not self.direction.x and self.direction.y < 0:
            self.origin, self.direction = self.p2, -self.direction
        self_normal = self.direction.normal()
        t_other = self_normal.dot(self.origin-other.origin)/self_normal.dot(other.direction)
        if t_other < 0""")],
  needs='a segment pointing straight down crossed with another', breaks='asking for a crossing turns the segment round',
  demo="""from x7.geom.geom import *
a = Line.from_pts(Point(0, 2), Point(0, -2)); b = Line.from_pts(Point(-1, -1), Point(3, 3))
a.segment_intersection(b)
assert a.origin == Point(0, 2) and a.direction == Vector(0, -4), a
"""),
dict(id='c01-lookup-recent', property='C01',
  edits=[(M, """        item = self.elems[head]
        if tail:
            if isinstance""", """        item = self.elems[head]
        if tail:
            self.elems[head] = self.elems.pop(head)     # Most recently used last
            if isinstance""")],
  needs='a deep lookup through a member that is not the last one', breaks='lookup changes the drawing order',
  demo=STD + """
inner = Group('i', pb, elems=[rect('a')])
g = Group('g', pb, elems=[inner, rect('b')])
g.lookup('i.a')
assert list(g.elems) == ['i', 'b'], list(g.elems)
"""),
dict(id='c01-offset-orient', property='C01',
  edits=[(M, """        transformed = self.transform(Transform())
        points = [(cp.l""", """        transformed = self if self.xform == Transform() else self.transform(Transform())
        points = [(cp.l"""),
         (M, """            x_cps = [cp.reversed() for cp in reversed(transformed.control_points)]
""", """            x_cps = transformed.control_points
            x_cps.reverse()
            x_cps[:] = [cp.reversed() for cp in x_cps]
""")],
  needs='offset of a clockwise curve without a transform', breaks='offset turns the original curve round',
  demo=STD + """
c = ElemCurve('c', pb, [ControlPoint(Point(0, 0), Vector(), Vector()), ControlPoint(Point(0, 4), Vector(), Vector()), ControlPoint(Point(5, 0), Vector(), Vector())])
d = ElemCurve('c', pb, [ControlPoint(Point(0, 0), Vector(), Vector()), ControlPoint(Point(0, 4), Vector(), Vector()), ControlPoint(Point(5, 0), Vector(), Vector())])
c.offset(0.5)
assert c == d
"""),
dict(id='c01-animation-parse', property='C01',
  edits=[(U, """    dxy = Vector(*dxy.xy())
""", """    if not isinstance(dxy, Vector):
        path[:] = [p.fixed() for p in path]
    dxy = Vector(*dxy.xy())
""")],
  needs='path_translate by a Point of a path of relative points', breaks='the caller list loses its live points',
  demo=STUB + """
from x7.geom.geom import *
from x7.geom.utils import path_translate
b = Point(1, 1); r = PointRelative(1, 2, b); path = [r]
path_translate(path, Point(3, 3))
assert path[0] is r
"""),
dict(id='c02-holes-empty', property='C02',
  edits=[(M, """        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside], self.closed, self.xform.copy())
""", """        return ElemWithHoles(
            self.name, self.penbrush, self.outside.copy(),
            [e.copy() for e in self.inside] or self.inside, self.closed, self.xform.copy())
""")],
  needs='copy of a shape with no holes, then adding a hole to one of them', breaks='copy and original share the list of holes',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o'), [])
c = w.copy()
c.inside.append(rect('h'))
assert not w.inside
"""),
dict(id='c02-corner-handles', property='C02',
  edits=[(B, """        return ControlPoint(self.c.fixed(), self.dl.fixed(), self.dr.fixed(), self.kind)
""", """        dl = self.dl.fixed()
        dr = self.dr.fixed() if self.dr else dl if not self.dl else Vector()
        return ControlPoint(self.c.fixed(), dl, dr, self.kind)
""")],
  needs='a sharp corner (both handles zero) fixed, then one handle moved', breaks='both handles of the copy are one object',
  demo="""from x7.geom.geom import *
from x7.geom.bezier import *
f = ControlPoint(Point(1, 2), Vector(), Vector()).fixed()
f.dl.setxy(3, 4)
assert f.dr == Vector(0, 0)
"""),
dict(id='c02-ellipse-center', property='C02',
  edits=[(G, """        if self.xl is None:
            return other.copy()
        return BBox(""", """        if self.xl is None:
            return other
        return BBox(""")],
  needs='the empty box plus a box, then growing the result', breaks='growing the union grows the operand',
  demo="""from x7.geom.geom import *
b = BBox(0, 0, 1, 1)
u = BBox(None) + b
u.grow(Point(5, 5))
assert b == BBox(0, 0, 1, 1)
"""),
dict(id='c02-group-points', property='C02',
  edits=[(M, """        points = dict(self.points)
        return Group(self.name""", """        points = dict(self.points) or self.points
        return Group(self.name"""),
         (M, "        self.points: Dict[str, BasePoint] = points or {}\n", "        self.points: Dict[str, BasePoint] = {} if points is None else points\n")],
  needs='copy of a group without points, then a point added to the copy', breaks='the point shows up in the original group',
  demo=STD + """
g = Group('g', pb)
h = g.copy(); h.add_pt('p', Point(1, 2))
assert 'p' not in g.points
"""),
dict(id='c02-set-matrix', property='C02',
  edits=[(T, """        self._mat = xform._mat.copy()
        self._inverse = None

    @property""", """        self._mat = xform._mat if xform.stack else xform._mat.copy()
        self._inverse = None

    @property""")],
  needs='set_matrix from a transform with something pushed, followed by a change', breaks='the two transforms share one matrix',
  demo="""from x7.geom.transform import *
a = Transform().translate(1, 2); a.push()
b = Transform(); b.set_matrix(a)
b.translate(5, 5)
assert a.transform(0, 0) == (1, 2), a
"""),
dict(id='c03-closed-kept', property='C03',
  edits=[(M, """        self.penbrush = other.penbrush
        self.closed = other.closed
        self.hidden = other.hidden
""", """        self.penbrush = other.penbrush
        self.closed = self.closed or other.closed
        self.hidden = other.hidden
""")],
  needs='a group closed after it was saved', breaks='restore does not bring back closed=False',
  demo=STD + """
g = Group('g', pb); s = g.copy(); g.closed = True; g.restore(s)
assert g.closed is False
"""),
dict(id='c03-radius-zero', property='C03',
  edits=[(M, "        self.radius = other.radius\n", "        self.radius = other.radius or self.radius\n")],
  needs='a rounded rectangle saved with radius 0', breaks='restore keeps the later radius',
  demo=STD + """
r = ElemRectangleRounded('r', pb, Point(0, 0), Point(4, 4), 0)
s = r.copy(); r.radius = 2; r.restore(s)
assert r.radius == 0
"""),
dict(id='c03-restore-base', property='C03',
  edits=[(B, """        self.c = copy.c.copy()
        self.dl""", """        if isinstance(self.c, Point):
            self.c.restore(copy.c)
        else:
            self.c = copy.c.copy()
        self.dl""")],
  needs='a control point holding a relative point when saved and a plain one when restored', breaks='the restored point no longer follows its base (and the client point put there is moved)',
  demo="""from x7.geom.geom import *
from x7.geom.bezier import *
b = Point(1, 1)
cp = ControlPoint(PointRelative(1, 2, b), Vector(), Vector())
s = cp.copy(); q = Point(9, 9); cp.c = q
cp.restore(s)
assert cp == s and q == Point(9, 9)
"""),
dict(id='c03-holes-pen', property='C03',
  edits=[(M, """        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]

""", """        self.outside = other.outside.copy()
        self.inside = [e.copy() for e in other.inside]
        for e in [self.outside] + self.inside:
            e.penbrush = self.penbrush

""")],
  needs='a shape with holes whose outline was given its own pen', breaks='restore loses the pen of the parts',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o'), [])
w.outside.penbrush = PenBrush('red')
s = w.copy(); s.outside.penbrush = PenBrush('red')
w.restore(s)
assert w.outside.penbrush == PenBrush('red'), w.outside.penbrush
"""),
dict(id='c04-group-point-names', property='C04',
  edits=[(M, """            self.elems == other.elems and
            self.points == other.points
""", """            self.elems == other.elems and
            self.points.keys() == other.points.keys()
""")],
  needs='two groups with points of the same name in different places', breaks='different groups compare equal',
  demo=STD + """
g, h = Group('g', pb), Group('g', pb)
g.add_pt('p', Point(1, 2)); h.add_pt('p', Point(3, 4))
assert g != h
"""),
dict(id='c04-vrel-value', property='C04',
  edits=[(G, """            self._p1 == other._p1 and self._p2 == other._p2
        )""", """            (self._p1 == other._p1 and self._p2 == other._p2 or not self and not other)
        )""")],
  needs='two collapsed vectors between different points', breaks='vectors between different points compare equal',
  demo="""from x7.geom.geom import *
a = VectorRelative(Point(1, 1), Point(1, 1)); b = VectorRelative(Point(2, 2), Point(2, 2))
assert a != b
"""),
dict(id='c04-line-equal', property='C04',
  edits=[(G, """            self.origin == other.origin and \\
            self.direction == other.direction
""", """            self.origin == other.origin and \\
            self.direction.xy() == other.direction.xy()
""")],
  needs='a line along a live vector compared with one along a plain vector', breaks='lines built from different arguments compare equal',
  demo="""from x7.geom.geom import *
a = Line(Point(0, 0), Vector(1, 2)); b = Line(Point(0, 0), VectorRelative(Point(1, 2), Point(0, 0)))
assert a != b
"""),
dict(id='c05-right-angle', property='C05',
  edits=[(G, """        rads = math.radians(degrees)
        cos_a""", """        if degrees % 180 == 90:
            return -self.normal()
        rads = math.radians(degrees)
        cos_a""")],
  needs='rotation by 270 or -90 degrees', breaks='rotation by 270 degrees goes the wrong way',
  demo="""from x7.geom.geom import *
assert Vector(1, 0).rotate(-90).close(Vector(0, -1)), Vector(1, 0).rotate(-90)
"""),
dict(id='c05-point-minus-rel', property='C05',
  edits=[(G, """        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
""", """        if isinstance(other, PointRelative) and other.base is self:
            return Vector(other.dx, other.dy)
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
""")],
  needs='base minus a point relative to it', breaks='the difference has the wrong sign',
  demo="""from x7.geom.geom import *
b = Point(1, 1); r = PointRelative(2, 3, b)
assert b - r == Vector(-2, -3), b - r
"""),
dict(id='c05-mid-float', property='C05',
  edits=[(G, """        return Point((sx+ox)/2, (sy+oy)/2)
""", """        half = 2 if isinstance(sx, float) or isinstance(ox, float) else 2.0
        return Point((sx+ox)/half, (sy+oy)//half if isinstance(sy, int) and isinstance(oy, int) else (sy+oy)/half)
""")],
  needs='midpoint of points with integer y of odd sum', breaks='the midpoint is not half way',
  demo="""from x7.geom.geom import *
assert Point(0, 0).mid(Point(1, 1)) == Point(0.5, 0.5)
"""),
dict(id='c06-p1p2-plain', property='C06',
  edits=[(M, """        self.p1 = p1.fixed()
        self.p2 = p2.fixed()
""", """        self.p1 = p1.fixed()
        self.p2 = p2 if isinstance(p2, Point) and not p2.name else p2.fixed()
""")],
  needs='a rectangle built from an unnamed point that is moved later', breaks='moving the point changes the rectangle',
  demo=STD + """
p = Point(3, 3); r = ElemRectangle('r', pb, Point(0, 0), p)
p.setxy(9, 9)
assert r.p2 == Point(3, 3)
"""),
dict(id='c06-calc-self', property='C06',
  edits=[(G, """        base_x, base_y = self.base.base.xy()
        return self.scale""", """        if self.scale == 1:
            return self.base.xy()
        base_x, base_y = self.base.base.xy()
        return self.scale"""),
         (G, """        base_x, base_y = self.base.xy()
        return self.dx + base_x, self.dy + base_y
""", """        if not self.dx and not self.dy:
            return self.base.xy()
        base_x, base_y = self.base.xy()
        return self.dx + base_x, self.dy + base_y
"""),
         (G, """        self.dx = dx
        self.dy = dy
        self.base = base

    def __repr__""", """        self.dx = dx
        self.dy = dy
        self.base = base.base if not dx and not dy and isinstance(base, PointRelative) and not base.dx and not base.dy else base

    def __repr__""")],
  needs='a chain of two relative points with zero offsets whose middle is moved', breaks='the end no longer follows the middle',
  demo="""from x7.geom.geom import *
a = Point(1, 1); b = PointRelative(0, 0, a); c = PointRelative(0, 0, b)
b.dx = 5
assert c.xy() == (6, 1), c.xy()
"""),
dict(id='c06-vrel-round-same', property='C06',
  edits=[(G, """        return VectorRelative(round(self._p1, n), round(self._p2, n))
""", """        p1, p2 = round(self._p1, n), round(self._p2, n)
        return self if (p1.xy(), p2.xy()) == (self._p1.xy(), self._p2.xy()) else VectorRelative(p1, p2)
""")],
  needs='rounding a live vector between points already round, then moving an end', breaks='the rounded vector follows the points',
  demo="""from x7.geom.geom import *
p = Point(3, 4); v = VectorRelative(p, Point(0, 0)); r = v.round(1)
p.setxy(8, 9)
assert r.xy() == (3, 4), r.xy()
"""),
dict(id='c07-expand-order', property='C07',
  edits=[(G, """        expand_y = expand_x if expand_y is None else expand_y
        expand_x = max(expand_x, -self.width/2)
""", """        expand_x = max(expand_x, -self.width/2)
        expand_y = expand_x if expand_y is None else expand_y
""")],
  needs='shrinking a narrow tall box by more than half its width', breaks='the height is not shrunk by what was asked',
  demo="""from x7.geom.geom import *
assert BBox(0, 0, 2, 10).expand(-3) == BBox(1, 3, 1, 7), BBox(0, 0, 2, 10).expand(-3)
"""),
dict(id='c07-transformed-diag', property='C07',
  edits=[(G, """        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        return BBox(ll, lh) + BBox(hh, hl)
""", """        if self.xl == self.xh or self.yl == self.yh:
            ll, hh = xform.transform_pts([self.pll, self.plh])
            return BBox(ll, hh)
        ll, lh, hh, hl = xform.transform_pts([self.pll, self.plh, self.phh, self.phl])
        return BBox(ll, lh) + BBox(hh, hl)
""")],
  needs='a flat horizontal box transformed', breaks='the transformed box covers only one end',
  demo="""from x7.geom.geom import *
from x7.geom.transform import *
assert BBox(0, 1, 4, 1).transformed(Transform()) == BBox(0, 1, 4, 1)
"""),
dict(id='c07-sort-tuple', property='C07',
  edits=[(G, """                xl, yl, xh, yh = xl
            elif""", """                xl, yl, xh, yh = xl
                if xl > xh and yl > yh:
                    xl, yl, xh, yh = yl, xl, yh, xh
            elif""")],
  needs='a box from a tuple with both axes reversed', breaks='x and y are swapped',
  demo="""from x7.geom.geom import *
assert BBox((5, 9, 1, 2)) == BBox(1, 2, 5, 9), BBox((5, 9, 1, 2))
"""),
dict(id='c08-touch-flat', property='C08',
  edits=[(G, """        return ((other.xh == self.xl or other.xl == self.xh) and self.yl <= other.yh and other.yl <= self.yh) or \\
               ((other.yh""", """        if self.is_empty and self == other:
            return False
        return ((other.xh == self.xl or other.xl == self.xh) and self.yl <= other.yh and other.yl <= self.yh) or \\
               ((other.yh""")],
  needs='a flat box asked whether it touches an equal one', breaks='touching no longer follows the definition for equal flat boxes',
  demo="""from x7.geom.geom import *
assert BBox(0, 0, 0, 2).touches(BBox(0, 0, 0, 2))
"""),
dict(id='c08-intersection-flat', property='C08',
  edits=[(G, """        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:
            return BBox(None)
""", """        if self.xl > other.xh or self.xh < other.xl or self.yl > other.yh or self.yh < other.yl:
            return BBox(None)
        if other.xl == other.xh and self.xl == other.xl:
            return BBox(None)
""")],
  needs='intersection with a vertical line box on the left edge', breaks='intersection is empty though they share points',
  demo="""from x7.geom.geom import *
assert BBox(0, 0, 2, 2).intersection(BBox(0, 1, 0, 3)) == BBox(0, 1, 0, 2)
"""),
dict(id='c08-union-inside', property='C08',
  edits=[(G, """        if self.xl is None:
            return other.copy()
        return BBox(""", """        if self.xl is None:
            return other.copy()
        if self.contains_pt(other.p1) and self.contains_pt(other.center):
            return self.copy()
        return BBox(""")],
  needs='a box whose low corner and centre, but not high corner, are inside the other', breaks='the union does not cover both',
  demo="""from x7.geom.geom import *
assert BBox(0, 0, 10, 10) + BBox(5, 5, 14, 14) == BBox(0, 0, 14, 14)
"""),
dict(id='c09-scale-bbox-square', property='C09',
  edits=[(T, """            scale = min(target.width / start.width, target.height / start.height)
""", """            scale = min(target.width, target.height) / max(start.width, start.height)
""")],
  needs='keep_aspect fit of a wide box into a wide box', breaks='the picture is smaller than the largest that fits',
  demo="""from x7.geom.transform import *
from x7.geom.geom import *
t = Transform().scale_bbox(BBox(0, 0, 4, 2), BBox(0, 0, 8, 4), True)
assert t.transform(4, 2) == (8, 4), t.transform(4, 2)
"""),
dict(id='c09-about-live', property='C09',
  edits=[(T, """        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre""", """        center = Point(*self.transform(*center)) if self.stack else center
        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre""")],
  needs='rotate_about inside a push', breaks='the rotation is about the mapped centre',
  demo="""from x7.geom.transform import *
from x7.geom.geom import *
t = Transform().translate(5, 0); t.push(); t.rotate_about(90, Point(1, 1))
u = Transform().translate(5, 0).rotate_about(90, Point(1, 1))
assert t == u
"""),
dict(id='c09-translate-none', property='C09',
  edits=[(T, """        self._mat.pre_dot_eq(self.translate_mat(dx, dy))
        self._inverse = None
        return self
""", """        if dx or dy:
            self._mat.pre_dot_eq(self.translate_mat(dx, dy))
            self._inverse = None
            return self
""")],
  needs='translate(0, 0) in a chain', breaks='the chain breaks with None',
  demo="""from x7.geom.transform import *
assert Transform().translate(0, 0).scale(2, 2).transform(1, 1) == (2, 2)
"""),
dict(id='c10-reset-inverse', property='C10',
  edits=[(T, """        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
""", """        keep = isinstance(transmat, Transform) and transmat._inverse is not None and self._inverse is not None
        inverse = np.dot(transmat._inverse, self._inverse) if keep else None
        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.pre_dot_eq(transmat.ndmat)
        self._inverse = inverse
        return self
""")],
  needs='compose_outer of two transforms whose inverses were both asked for', breaks='the undo map is composed in the wrong order',
  demo="""from x7.geom.transform import *
a = Transform().scale(2, 2); b = Transform().translate(3, 0)
a.untransform(1, 1); b.untransform(1, 1)
a.compose_outer(b)
assert a.untransform(*a.transform(1, 1)) == (1, 1), a.untransform(*a.transform(1, 1))
"""),
dict(id='c10-copy-inverse', property='C10',
  edits=[(T, """        dup.set_matrix(self)
        return dup
""", """        dup.set_matrix(self)
        dup.__dict__['_inverse'] = self._inverse if not self.stack else self.inverse
        dup.stack = [m.copy() for m in self.stack[:0]]
        if self.stack and dup._inverse is not None:
            dup._inverse = np.linalg.inv(self.stack[-1].ndmat)
        return dup
""")],
  needs='copy of a transform with something pushed and changed since', breaks='the copy undoes the pushed map, not its own',
  demo="""from x7.geom.transform import *
a = Transform().scale(2, 2); a.push(); a.translate(3, 0)
b = a.copy()
assert b.untransform(*b.transform(1, 1)) == (1, 1)
"""),
dict(id='c11-empty-walk', property='C11',
  edits=[(M, """        matrix = matrix or Transform()
        with matrix.push():
            if self.xform:
                matrix.compose(self.xform)
            root = root""", """        matrix = matrix or Transform()
        matrix.push()
        if not self.elems:
            return
        with matrix:
            if self.xform:
                matrix.compose(self.xform)
            root = root""")],
  needs='walking an empty group with a caller matrix', breaks='a pushed matrix stays on the stack',
  demo=STD + """
t = Transform(); list(Group('g', pb).iter_elems_transformed(None, t))
assert not t.stack
"""),
dict(id='c11-cps-outside', property='C11',
  edits=[(M, """        with self.draw_space(dc):
            paths = self.outside.control_paths(dc)
            for elem in self.inside:
                paths.extend(elem.control_paths(dc))
        return paths
""", """        self.draw_space(dc)
        paths = self.outside.control_paths(dc)
        if self.inside:
            with dc.matrix:
                for elem in self.inside:
                    paths.extend(elem.control_paths(dc))
        else:
            dc.matrix.pop()
        return paths
""")],
  needs='control paths of a shape with holes whose outline raises', breaks='the pushed matrix stays when the outline raises',
  demo=STD + """
class Bad(ElemRectangle):
    def control_paths(self, dc): raise ValueError('no')
w = ElemWithHoles('w', pb, Bad('o', pb, Point(0, 0), Point(1, 1)), [rect('h')])
dc = DrawingContext(None, Transform())
try: w.control_paths(dc)
except ValueError: pass
assert not dc.matrix.stack
"""),
dict(id='c12-single-pair', property='C12',
  edits=[(T, """        np_pts = self.transform_np_pts(self.points_to_np_points(pts))
        if flatten:
            return [v for x, y, *_ in np_pts for v in (x, y)]
""", """        if len(pts) == 1:
            xy = self.transform(*pts[0])
            return list(xy) if flatten else [Point(*xy)]
        np_pts = self.transform_np_pts(self.points_to_np_points(pts))
        if flatten:
            return [v for x, y, *_ in np_pts for v in (x, y)]
""")],
  needs='a list of one (x, y) pair', breaks='a pair comes back as a Point',
  demo="""from x7.geom.transform import *
r = Transform().transform_pts([(1, 2)])
assert type(r[0]) is tuple, r
"""),
dict(id='c12-untransform-one', property='C12',
  edits=[(T, """        pts = np.array([(x, y, 1) for x, y in pts]).T
        # print""", """        pts = np.array([(x, y, len(pts)) for x, y in pts]).T / (1 if len(pts) < 3 else len(pts))
        # print""")],
  needs='untransforming two points at once', breaks='points in a list of two are undone with twice the translation',
  demo="""from x7.geom.transform import *
t = Transform().translate(10, 0)
assert t.untransform_pts([(10, 0), (11, 0)]) == [(0, 0), (1, 0)], t.untransform_pts([(10, 0), (11, 0)])
"""),
dict(id='c13-holes-xform-inner', property='C13',
  edits=[(M, """        all_elems = [self.outside] + self.inside
        return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
""", """        all_elems = [self.outside] + self.inside
        xform = self.xform
        return [(c if isinstance(e, Group) else c.transform(xform)) for e in all_elems for c in e.as_curves()]
""")],
  needs='a shape with a transform and a group as a hole, converted to curves', breaks='the curves of the hole are not moved',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o', 0, 0), [Group('g', pb, elems=[rect('a', 0, 0)])], xform=Transform().translate(10, 0))
assert w.as_curves()[1].bbox().xl == 10, w.as_curves()[1].bbox()
"""),
dict(id='c13-rounded-turn', property='C13',
  edits=[(M, """        rotate, (p1, p2, p1r) = self.transform_pts(matrix, [self.p1, self.p2, self.p1+Vector(self.radius, 0)])
        radius = (p1r-p1).length()
""", """        rotate, (p1, p2) = self.transform_pts(matrix, [self.p1, self.p2])
        radius = self.radius * abs(p2.x - p1.x) / abs(self.p2.x - self.p1.x)
""")],
  needs='a rounded rectangle that is not square turned by 90 degrees', breaks='the corner radius is scaled by the sides',
  demo=STD + """
r = ElemRectangleRounded('r', pb, Point(0, 0), Point(10, 4), 1)
t = r.transform(Transform().rotate(90))
assert abs(t.radius - 1) < 1e-9, t.radius
"""),
dict(id='c13-update-diag', property='C13',
  edits=[(M, """        self.p1.restore(bbox.p1)
        self.p2.restore(bbox.p2)
""", """        if self.p1.x > self.p2.x:
            self.p1.restore(bbox.phh)
            self.p2.restore(bbox.pll)
        elif self.p1.y > self.p2.y:
            self.p1.setxy(bbox.xl, bbox.yh)
            self.p2.setxy(bbox.xh, self.p2.y)
        else:
            self.p1.restore(bbox.p1)
            self.p2.restore(bbox.p2)
""")],
  needs='box update of a shape whose first corner is the upper left one', breaks='the shape does not fill its new box',
  demo=STD + """
r = ElemRectangle('r', pb, Point(0, 4), Point(3, 1))
r.bbox_int_update(BBox(10, 10, 20, 20))
assert r.bbox() == BBox(10, 10, 20, 20), r.bbox()
"""),
dict(id='c14-collinear', property='C14',
  edits=[(B, """    path = [(ax, ay)]
    # steps""", """    path = [(ax, ay)]
    if ax == bx and cx == dx and ay == by and cy == dy:
        bx, by, cx, cy = ax + (dx-ax)/3, ay + (dy-ay)/3, ax + 2*(dx-ax)/3, ay + 2*(dy-ay)/3
    # steps""")],
  needs='a segment whose handles are both zero', breaks='interior points are those of another parameterisation',
  demo="""from x7.geom.bezier import *
p = bez([(0, 0), (0, 0), (4, 0), (4, 0)], steps=4, as_xy=True)
assert abs(p[1][0] - 4 * (3 * 0.75 * 0.0625 + 0.015625)) < 1e-12, p
"""),
dict(id='c14-step-one', property='C14',
  edits=[(B, """    path.append((dx, dy))
    if not as_xy:""", """    if steps > 1 or (ax, ay) != (dx, dy):
        path.append((dx, dy))
    if not as_xy:""")],
  needs='a loop segment evaluated in one step', breaks='the end point is missing',
  demo="""from x7.geom.bezier import *
p = bez([(0, 0), (3, 0), (0, 3), (0, 0)], steps=1, as_xy=True)
assert len(p) == 2, p
"""),
dict(id='c15-split-handles', property='C15',
  edits=[(B, """    left = ControlPoint(a, cp1.dl, ab-a)
""", """    left = ControlPoint(a, cp1.dl if cp1.dl or not cp1.dr else a-ab, ab-a)
""")],
  needs='splitting at a point that has only an outgoing handle', breaks='the neighbouring segment changes shape',
  demo="""from x7.geom.geom import *
from x7.geom.bezier import *
l, m, r = bez_split(ControlPoint(Point(0, 0), Vector(), Vector(2, 2)), ControlPoint(Point(4, 0), Vector(-2, 2), Vector()))
assert l.dl == Vector(0, 0), l
"""),
dict(id='c15-add-one-tie', property='C15',
  edits=[(M, """        if left == right:
            r.dr = l.dr         # Single control point: both of its handles change
""", """        if left == right or cps[left].c == cps[right].c:
            r.dr = l.dr         # Single control point: both of its handles change
""")],
  needs='a loop: two consecutive control points at the same place that are also the longest segment', breaks='the next segment changes shape',
  demo=STD + """
c = ElemCurve('c', pb, [ControlPoint(Point(0, 0), Vector(-1, 0), Vector(4, 4)), ControlPoint(Point(0, 0), Vector(-4, 4), Vector(1, 1))])
d = c.copy(); c.add_one()
assert c.control_points[-1].dr == Vector(1, 1) or c.control_points[1].dr == Vector(1, 1) or c.control_points[0].dr == Vector(1, 1), c
"""),
dict(id='c16-arc-whole', property='C16',
  edits=[(U, """        ea = ea % 360
        if ea < sa:
            ea += 360
""", """        ea = ea % 360
        if ea <= sa:
            ea += 360
""")],
  needs='an arc whose start and end angles are equal', breaks='an empty arc becomes a whole circle',
  demo=STUB + """
from x7.geom.utils import arc
p = arc(1, 90, 90, steps=4)
assert all(abs(x) < 1e-9 and abs(y - 1) < 1e-9 for x, y in p), p
"""),
dict(id='c16-rotate-pt', property='C16',
  edits=[(U, """    t = Transform().rotate_ccw(angle)
    return [t.transform_pt(pt, as_pt) for pt in path]
""", """    t = Transform().rotate_ccw(angle)
    if len(set(path_to_xy(path))) < len(path):
        path = path[:1] + [p for q, p in zip(path, path[1:]) if p.xy() != q.xy()]
    return [t.transform_pt(pt, as_pt) for pt in path]
""")],
  needs='rotating a path that repeats a point', breaks='a point is lost',
  demo=STUB + """
from x7.geom.geom import *
from x7.geom.utils import path_rotate_ccw
assert len(path_rotate_ccw([Point(1, 1), Point(1, 1)], 30)) == 2
"""),
dict(id='c16-plus-zero-centre', property='C16',
  edits=[(U, """    vx = Vector(r, 0)
    vy = Vector(0, r)
""", """    vx = Vector(abs(r), 0)
    vy = Vector(0, r)
""")],
  needs='a plus of negative radius', breaks='the arms are not mirrored together',
  demo=STUB + """
from x7.geom.geom import *
from x7.geom.utils import plus
p = plus(-2)
assert p[0] == (2, 0) and p[3] == (0, 2), p
"""),
dict(id='c17-closed-default', property='C17',
  edits=[(M, """        basic = '%s(%r, %s, closed=%r, ' % (
            type(self).__name__, self.name, penbrush, self.closed)
""", """        basic = '%s(%r, %s, ' % (type(self).__name__, self.name, penbrush)
        if self.closed or isinstance(self, ElemCurve):
            basic += 'closed=%r, ' % self.closed
""")],
  needs='an open shape with holes', breaks='it loads as closed',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o'), [], closed=False)
t = w.dump().output()
ns = {}; exec(t, ns)
assert ns['model'] == w, t
"""),
dict(id='c17-hidden-empty', property='C17',
  edits=[(M, "        if self.hidden:\n            extra['hidden'] = self.hidden\n", "        if self.hidden and self.elems:\n            extra['hidden'] = self.hidden\n")],
  needs='an empty hidden group', breaks='it loads as visible',
  demo=STD + """
g = Group('g', pb, hidden=True)
ns = {}; exec(g.dump().output(), ns)
assert ns['model'].hidden
"""),
dict(id='c17-bbox-int', property='C17',
  edits=[(G, """        return 'BBox(xl=%r, yl=%r, xh=%r, yh=%r)' % self.as_tuple()
""", """        if self.xl == self.xh and self.yl == self.yh:
            return 'BBox(%r, %r)' % (self.xl, self.yl)
        return 'BBox(xl=%r, yl=%r, xh=%r, yh=%r)' % self.as_tuple()
""")],
  needs='repr of a box that is one point', breaks='it does not read back',
  demo="""from x7.geom.geom import *
b = BBox(1, 2, 1, 2)
assert eval(repr(b)) == b
"""),
dict(id='c17-var-shared-prefix', property='C17',
  edits=[(M, """                self.prefixes[prefix] = self.prefixes.get(prefix, 0) + 1
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
""", """                self.prefixes[prefix] = 1 + sum(1 for n in self.vars.values() if n.startswith(prefix)) % 10
                self.vars[value] = '%s_%d' % (prefix, self.prefixes[prefix])
""")],
  needs='a model with more than ten different pens', breaks='two pens get one name',
  demo=STD + """
g = Group('g', pb, elems=[rect('r%d' % n, pen=PenBrush('c%d' % n)) for n in range(11)])
ns = {}; exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c18-multi-empty-step', property='C18',
  edits=[(A, """        idx = bisect.bisect_right(self.all_steps, t)
        if idx == 0:""", """        idx = bisect.bisect_left(self.all_steps, t)
        if idx == 0:""")],
  needs='two targets given for the same time, shown at exactly that time', breaks='at the time of a jump the shape before it is shown (division by a zero step elsewhere)',
  demo=STD + """
from x7.geom.anim import *
def c(n, x): return ElemCurve(n, pb, [ControlPoint(Point(x, 0), Vector(), Vector()), ControlPoint(Point(x+5, 3), Vector(), Vector())])
s = c('s', 0); g = Group('g', pb, elems=[s])
m = MorphMultiStep(g, s, [(0.5, c('a', 10)), (0.5, c('b', 20)), (1.0, c('d', 30))], lambda t: t)
m.update(0.5)
assert m.morph.control_points[0].c.x == 20, m.morph
"""),
dict(id='c18-linear-tuple', property='C18',
  edits=[(A, """        tx, ty = t if isinstance(t, tuple) else (t, t)
        sx, sy = 1 - tx, 1 - ty
        self.point""", """        tx, ty = t if isinstance(t, tuple) else (t, t)
        if ty > 1:
            ty = tx
        sx, sy = 1 - tx, 1 - ty
        self.point""")],
  needs='separate times for x and y, the y one beyond 1', breaks='y is moved by the x time',
  demo="""from x7.geom.anim import *
from x7.geom.geom import *
p = Point(0, 0); a = AnimationLinear(p, Point(10, 10)); a.update((0.5, 2))
assert p.xy() == (5, 20), p
"""),
dict(id='c18-sinus-phase', property='C18',
  edits=[(A, """        t = (1.0 - cos(t * tau * self.frequency + self.offset * tau / 360)) * 0.5
        ox""", """        t = (1.0 - cos((t * self.frequency % 1 if t >= 0 else t) * tau + self.offset * tau / 360)) * 0.5 if self.offset % 360 else \\
            abs((t * self.frequency + 0.5) % 1 - 0.5) * 2 if self.frequency == 0.25 else \\
            (1.0 - cos(t * tau * self.frequency)) * 0.5
        ox""")],
  needs='a quarter-frequency sinusoidal animation', breaks='the point moves linearly',
  demo="""from x7.geom.anim import *
from x7.geom.geom import *
p = Point(0, 0); a = AnimationSinusoidal(p, Point(10, 0), 0.25); a.update(1)
assert abs(p.x - 5) < 1e-9 ; a.update(0.5)
assert abs(p.x - 5 * (1 - cos(tau / 8))) < 1e-9, p
"""),
dict(id='c18-circular-live', property='C18',
  edits=[(A, """        ox, oy = self.orig.xy()
        theta = t * tau""", """        ox, oy = self.orig.xy() if t or self.offset else self.point.xy()
        theta = t * tau""")],
  needs='a circular animation set back to time 0', breaks='the position at 0 depends on what was shown before',
  demo="""from x7.geom.anim import *
from x7.geom.geom import *
p = Point(0, 0); a = AnimationCircular(p, 10, 1); a.update(0.25); a.update(0)
assert abs(p.x) < 1e-9 and abs(p.y - 10) < 1e-9, p
"""),
dict(id='c18-hide-back', property='C18',
  edits=[(A, """            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                # print""", """            for m, o, tgt in zip(pts(morph), pts(orig), pts(target)):
                if o == tgt and m.xy() != (0, 0):
                    continue
                # print""")],
  needs='a morph with a point that does not move, hidden and shown again', breaks='the point stays off-screen',
  demo=STD + """
from x7.geom.anim import *
def c(n, x): return ElemCurve(n, pb, [ControlPoint(Point(1, 1), Vector(), Vector()), ControlPoint(Point(x+5, 3), Vector(), Vector())])
s = c('s', 0); g = Group('g', pb, elems=[s])
m = Morph(g, s, c('d', 30), lambda t: None if t < 0 else t)
m.update(0.2); m.update(-1); m.update(0.3)
assert m.morph.control_points[0].c == Point(1, 1), m.morph
"""),
dict(id='c18-interp-step', property='C18',
  edits=[(A, """        time = np.array(time, dtype=float)
        value = np.array(value, dtype=float)
""", """        time = np.array(time, dtype=float)
        value = np.array(value, dtype=float)
        keep = np.append(np.diff(time) > 0, True)
        time, value = time[keep], value[keep]
""")],
  needs='an interpolation with a jump (two values at one time)', breaks='the value just before the jump is lost',
  demo="""from x7.geom.anim import *
f = Animation.interpolate([(0, 0), (0.5, 0), (0.5, 1), (1, 1)])
assert f(0.25) == 0, f(0.25)
"""),
dict(id='c21-add-rename-holes', property='C21',
  edits=[(M, """        self.elems[name] = elem
        elem.name = name
""", """        self.elems[name] = elem
        if not isinstance(elem, ElemWithHoles) or not elem.name:
            elem.name = name
""")],
  needs='a shape with holes added under another name', breaks='it is filed under a name that is not its own',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o'), [])
g = Group('g', pb); g.add('v', w)
assert w.name == 'v'
"""),
dict(id='c21-lookup-outside-deep', property='C21',
  edits=[(M, """            for elem in self.inside:
                if tail == elem.name:
                    return elem
        raise""", """            names = dict((elem.name, elem) for elem in self.inside)
            if tail in names:
                return names[tail]
        raise""")],
  needs='two holes of the same name', breaks='the name leads to the last instead of the first',
  demo=STD + """
a, b = rect('h'), rect('h')
w = ElemWithHoles('w', pb, rect('o'), [a, b])
assert w.lookup('inside.h') is a
"""),
dict(id='c21-iter-root', property='C21',
  edits=[(M, """                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
""", """                path = root + '.' + self.name if root and root != self.name else self.name
                yield from elem.iter_elems(path, matrix)
""")],
  needs='a group inside a group of the same name', breaks='the reported name leads to no shape',
  demo=STD + """
g = Group('a', pb, elems=[Group('a', pb, elems=[rect('r')])])
assert [n for n, e, m in g.iter_elems()] == ['a.a.r'], [n for n, e, m in g.iter_elems()]
"""),
dict(id='c21-replace-same-name', property='C21',
  edits=[(M, """        for name, e in list(self.elems.items()):
            if e == elem:
                print""", """        for name, e in list(self.elems.items()):
            if e is replacement:
                continue
            if e == elem:
                print""")],
  needs='replacing a shape by an equal one already in another place / by itself', breaks='replacing a shape by itself counts nothing',
  demo=STD + """
r = rect('a'); g = Group('g', pb, elems=[r])
assert g.replace(r, r) == 1
"""),
dict(id='c22-restore-partial', property='C22',
  edits=[(M, """        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for""", """        super().restore(other)
        if len(self.control_points) == len(other.control_points):
            for""")],
  needs='restore of a curve from a saved one with another number of points', breaks='the refused restore changes name, pen and transform',
  demo=STD + """
c = cv('c', (0, 0), (1, 1)); s = cv('s', (0, 0), pen=PenBrush('red'))
try: c.restore(s)
except Exception: pass
assert c.name == 'c' and c.penbrush == pb
"""),
dict(id='c22-addpt-rename', property='C22',
  edits=[(M, """        assert name not in self.points
        assert '.' not in name
        self.points[name] = pt
        pt.name = name
        return pt
""", """        pt.name = name
        assert self.points.setdefault(name, pt) is pt
        assert '.' not in name
        return pt
""")],
  needs='adding a point under a taken or dotted name', breaks='the refused point is renamed or kept',
  demo=STD + """
g = Group('g', pb); g.add_pt('p', Point(1, 1)); q = Point(2, 2, 'q')
try: g.add_pt('p', q)
except AssertionError: pass
assert q.name == 'q'
"""),
dict(id='c22-builder-group', property='C22',
  edits=[(M, """        g = GroupBuilder(name, pens_by_shape=pens_by_shape, shape_kind=shape_kind)
        self.add(name, g.the_group)
        return g
""", """        self.the_group.elems.setdefault(name, None) if '.' in name else None
        g = GroupBuilder(name, pens_by_shape=pens_by_shape, shape_kind=shape_kind)
        self.add(name, g.the_group)
        return g
""")],
  needs='a builder asked for a sub-group with a dotted name', breaks='the refused name stays in the group',
  demo=STD + """
b = GroupBuilder('b', PensByShape())
try: b.group('x.y')
except ValueError: pass
assert not b.the_group.elems
"""),
dict(id='c23-stroke-width-tiny', property='C23',
  edits=[(C, """                return xform.transform_width(-self.pen.width)
""", """                return xform.transform_width(-self.pen.width) if self.pen.width <= -0.5 else 0.0
""")],
  needs='a scaled pen thinner than half a unit', breaks='thin scaled pens lose their width',
  demo="""from x7.geom.colors import *
from x7.geom.transform import *
assert PenBrush(Pen('red', -0.25)).stroke_width(Transform().scale(8, 8)) == 2
"""),
dict(id='c23-penbrush-brush-pen', property='C23',
  edits=[(C, """            self.pen = Pen(*pen)        # (color, width)
        else:
            self.pen = Pen(pen)         # color
""", """            self.pen = Pen(*pen)        # (color, width)
        else:
            self.pen = Pen(pen, 1.0 if isinstance(pen, Brush) else 0.0)         # color
""")],
  needs='a PenBrush whose pen is given as a Brush', breaks='the width is 1 instead of the thinnest',
  demo="""from x7.geom.colors import *
assert PenBrush(Brush('red')).pen.width == 0.0
"""),
dict(id='c23-table-width-fill', property='C23',
  edits=[(C, """        return PensByShape(**dict((k, self[k].replace(width=width)) for k in self.keys()))
""", """        kinds = {}
        for k in self.keys():
            pen = self[k]
            kinds[k] = next((kinds[j] for j in kinds if self[j].pen == pen.pen and self[j].filled == pen.filled), None) or pen.replace(width=width)
        return PensByShape(**kinds)
""")],
  needs='replace_width on a table whose filled kinds share a pen but not a fill', breaks='edge_clear gets the fill of edge_filled',
  demo="""from x7.geom.colors import *
t = PensByShape.make(False, 'red', 'blue', 'green', 2).replace_width(3)
assert t['edge_clear'].fill_color == 'green', t
"""),
dict(id='c24-closed-twice', property='C24',
  edits=[(M, """                if do_outline:
                    draw.draw.line(p.tolist() + [p[0]],""", """                if do_outline:
                    draw.draw.line(p.tolist() + [p[0]] if p[0] != p[-1] or len(p) < 4 else p.tolist()[:-1],""")],
  needs='a filled, outlined shape whose outline already ends at its start', breaks='the outline has a gap',
  demo=STD + """
ev = []
class D:
    def polygon(self, *a, **k): pass
    def line(self, p, **k): ev.append(list(p))
    def ellipse(self, *a, **k): pass
dc = DrawingContext(None, Transform()); dc.draw = D(); dc.debug = False
rect('r', pen=PenBrush('red', 'blue')).draw(dc)
assert ev[0][0] == ev[0][-1], ev
"""),
dict(id='c24-handles-zero', property='C24',
  edits=[(M, """                    draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
""", """                    if cp.dr != -cp.dl:
                        draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
""")],
  needs='control points shown for a point with mirrored handles', breaks='the right handle is not drawn',
  demo=STD + """
ev = []
class D:
    def __getattr__(self, n): return lambda *a, **k: ev.append((n, a))
dc = DrawingContext(None, Transform()); dc.draw = D()
ElemCurve('c', pb, [ControlPoint(Point(0, 0), Vector(1, 2), Vector(-1, -2))]).draw_control_points(dc)
assert len([e for e in ev if e[0] == 'line']) == 2, ev
"""),
dict(id='c24-shadow-offset', property='C24',
  edits=[(M, """            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:
                fill_color = draw.shadow_color
""", """            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT and do_outline:
                fill_color = draw.shadow_color
""")],
  needs='shadow of a shape that is filled but not outlined', breaks='its shadow is drawn in its own colour',
  demo=STD + """
ev = []
class D:
    def polygon(self, p, fill=None, **k): ev.append(fill)
dc = DrawingContext(None, Transform()); dc.draw = D(); dc.debug = False; dc.shadow_color = 'grey'
rect('r', pen=PenBrush(None, 'blue')).draw(dc)
assert ev == ['grey'], ev
"""),
dict(id='c25-line-str', property='C25',
  edits=[(G, """        return '%s @ %s' % (self.origin.round(2), self.direction.round(2))
""", """        return '%s @ %s' % (self.origin.round(2), self.direction.unit().round(2))
""")],
  needs='str of a line without direction', breaks='printing raises',
  demo="""from x7.geom.geom import *
str(Line(Point(1, 1), Vector(0, 0)))
"""),
dict(id='c25-calc-of-calc', property='C25',
  edits=[(G, """        return self.scale * self.base.dx + base_x, self.scale * self.base.dy + base_y
""", """        dx, dy = self.base.dx, self.base.dy
        return dx / (1 / self.scale) + base_x, dy / (1 / self.scale) + base_y
""")],
  needs='a computed point with scale 0', breaks='reading it raises',
  demo="""from x7.geom.geom import *
assert PointCalc(PointRelative(1, 2, Point(3, 4)), 0).xy() == (3, 4)
"""),
dict(id='c17-builder-namesake', property='C17',
  edits=[(M, """        dc = dc or DumpContext()
        self.the_group.dump(dc)
        return dc
""", """        dc = dc or DumpContext()
        return self.the_group.lookup(self.the_group.name).dump(dc) if self.the_group.name in self.the_group.elems else self.the_group.dump(dc)
""")],
  needs='dump of a builder whose group has a member of its own name', breaks='only the member is dumped',
  demo=STD + """
b = GroupBuilder('a', PensByShape()); b.rect('a', Point(0, 0), Point(1, 1)); b.rect('b', Point(0, 0), Point(1, 1))
assert 'Group' in b.dump().output()
"""),
dict(id='c27-closest-half', property='C27',
  edits=[(G, """        if self.direction.cross(other.direction) == 0:
            # Parallel""", """        if self.origin == other.origin:
            return self.origin
        if self.direction.cross(other.direction) == 0:
            # Parallel""")],
  needs='crossing of parallel lines from one origin', breaks='parallel lines are given a crossing instead of an error',
  demo="""from x7.geom.geom import *
try: Line(Point(1, 1), Vector(1, 2)).intersection(Line(Point(1, 1), Vector(2, 4)))
except ParallelLineError: pass
else: assert False
"""),
dict(id='c27-midpoint-dir', property='C27',
  edits=[(G, """        return self.origin + self.direction * 0.5
""", """        return self.origin.mid(self.origin - self.direction if isinstance(self.direction, VectorRelative) and self.direction._p2 is not self.origin else self.p2)
""")],
  needs='midpoint of a line along a live vector between other points', breaks='the midpoint is on the wrong side',
  demo="""from x7.geom.geom import *
l = Line(Point(0, 0), VectorRelative(Point(4, 4), Point(2, 2)))
assert l.midpoint == Point(1, 1), l.midpoint
"""),
dict(id='c27-sub-line', property='C27',
  edits=[(G, """        return Line(self.origin - vector, self.direction)
""", """        return Line(self.origin + -vector, self.direction if vector else -self.direction)
""")],
  needs='a line shifted back by the zero vector', breaks='the line is turned round',
  demo="""from x7.geom.geom import *
assert (Line(Point(0, 0), Vector(1, 2)) - Vector()).direction == Vector(1, 2)
"""),
dict(id='c28-scaled-sy-zero', property='C28',
  edits=[(V, "        sy = sy if sy is not None else sx\n", "        sy = sy if sy else sx\n")],
  needs='a field scaled by 0 in y', breaks='y vectors are kept',
  demo="""from x7.geom.geom import *
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 1), 2)
f = VectorField(m, np.ones((2, 2)), np.ones((2, 2))).scaled(2, 0)
assert not f.vy.any()
"""),
dict(id='c28-smooth-wrap', property='C28',
  edits=[(V, """                for x in range(max(0, i - r), min(shape[0], i + r)):
""", """                for x in range(i - r if i == 1 else max(0, i - r), min(shape[0], i + r)):
""")],
  needs='a smoothed field', breaks='vectors of the far edge leak into the near one',
  demo="""from x7.geom.geom import *
from x7.geom.vec_field import *
m = Mesh(BBox(0, 0, 1, 1), 6)
vx = np.zeros((6, 6)); vx[5, 0] = 1.0
f = VectorField(m, vx, np.zeros((6, 6))).smoothed()
assert f.vx[1, 0] == 0, f.vx
"""),
dict(id='c29-evaluate-b', property='C29',
  edits=[(B, """        points = [Point(x, y) for x, y in points.T]
""", """        points = [Point(x, y) if 0 < t < 1 else (cpa2.c if t else cpa1.c) for (x, y), t in zip(points.T, intersections[0])]
""")],
  needs='a crossing at the end of a curve', breaks='the reported point is the live end point of the curve',
  demo="""from x7.geom.geom import *
import x7.geom.bezier as bz
import numpy as np
class Curve:
    def __init__(self, nodes, degree): self.nodes = nodes
    def intersect(self, other): return np.array([[1.0], [0.5]])
    def evaluate_multi(self, ts): return self.nodes[:, -1:]
bz.BzCurve = Curve
a, b = bz.ControlPoint(Point(0, 0), Vector(), Vector()), bz.ControlPoint(Point(4, 0), Vector(), Vector())
p = bz.bez_intersect_new(a, b, a, b, endpoints=True)[0][0]
assert p is not b.c
"""),
dict(id='c30-crop-rounded', property='C30',
  edits=[(D, """        x1, y1, x2, y2 = map(int, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
""", """        x1, y1, x2, y2 = map(round, self.scale_pt(crop[0], crop[1]) + self.scale_pt(crop[2], crop[3]))
""")],
  needs='a crop box that falls between pixels', breaks='the crop is moved by a pixel',
  demo="""from x7.geom.drawing import *
dc = DrawingContext(None, Transform())
assert dc.crop_to_pixels((1.7, 1.7, 9.2, 9.8)) == (1, 1, 9, 9), dc.crop_to_pixels((1.7, 1.7, 9.2, 9.8))
"""),
dict(id='c30-shadow-colour-kept', property='C30',
  edits=[(D, """        finally:
            self.draw = draw
            self.shadow_color = None

        self.shadow""", """        finally:
            self.draw = draw
        self.shadow_color = None

        self.shadow""")],
  needs='drawing a shadow that raises', breaks='later drawing uses the shadow colour',
  demo="""from x7.geom.drawing import *
class Bad:
    def draw(self, dc): raise ValueError
dc = DrawingContext(None, Transform())
try: dc.shadow_draw(Bad())
except ValueError: pass
assert dc.shadow_color is None
"""),
dict(id='c30-bbox-max-empty', property='C30',
  edits=[(D, """    compare = (min, min, max, max)
""", """    if bbox_a[:2] == bbox_a[2:]:
        return tuple(bbox_b)
    compare = (min, min, max, max)
""")],
  needs='the union with a one-pixel-wide empty box', breaks='the point is not covered',
  demo="""from x7.geom.drawing import *
assert bbox_max((0, 0, 0, 0), (5, 5, 6, 6)) == (0, 0, 6, 6)
"""),
dict(id='c30-frame-steps', property='C30',
  edits=[(AS, """                step_t = self.t_low + step * step_size
""", """                step_t = self.t_low + step * step_size if step < self.steps else max(self.t_low, self.t_high)
""")],
  needs='an animation running from a high to a low time', breaks='the last frame is at the first time',
  demo="""from x7.geom.anim_simple import *
ts = []
SimpleAnimation(lambda dc, t: ts.append(t), (4, 4), steps=2, t_low=1, t_high=0).animate()
assert ts == [1, 0.5, 0], ts
"""),
dict(id='c31-list-of-one', property='C31',
  edits=[(S, """            if all(isinstance(d, Elem) for d in data):
""", """            if len(data) == 1 and isinstance(data[0], Elem):
                return '[%s]' % dump_one_elem(data[0])
            if data and all(isinstance(d, Elem) for d in data) and not isinstance(data[-1], Group):
""")],
  needs='a list of shapes whose last is a group', breaks='the list is not saved as shapes',
  demo=STUB + STD + """
from x7.geom.testing import *
p = PicklerExtensionGeom(None)
assert p.do_pickle([rect('a'), Group('g', pb)], '')
"""),
dict(id='c31-kind-close', property='C31',
  edits=[(S, """        if all(n == o or (hasattr(n, 'close') and n.close(o)) for n, o in zip(vals_n, vals_o)):
""", """        if all(n == o or not hasattr(n, 'close') or n.close(o) for n, o in zip(vals_n, vals_o)):
""")],
  needs='control points that differ only in kind', breaks='a different kind is explained away',
  demo=STUB + """
from x7.geom.testing import *
from x7.geom.geom import *
from x7.geom.model import *
m = ExtendedMatcherControlPoint(None)
a = ControlPoint(Point(0, 0), Vector(), Vector(), 'sharp'); b = ControlPoint(Point(0, 0), Vector(), Vector(), 'smooth')
assert m.explain_mismatch(a, b)[0] is False
"""),
]
