G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c01-walk-identity', property='C01',
  edits=[(M, """                xf = elem.transform(matrix)
                xf.name = root + '.' + xf.name
                yield xf
""", """                xf = elem.transform(matrix) if matrix != Transform() else elem
                xf.name = root + '.' + xf.name
                yield xf
""")],
  needs='a walk over the transformed shapes of a group that has no transform of its own',
  breaks='listing the shapes renames the members of the group',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'))
g.add('a', rect('a'))
list(g.iter_elems_transformed())
assert g.elems['a'].name == 'a', g.elems['a'].name
g.xform.translate(1, 2)
list(g.iter_elems_transformed())
assert g.elems['a'].name == 'a'
"""),
dict(id='c01-bez-path-closes', property='C01',
  edits=[(B, """    if closed:
        extra = cps
    else:
        extra = []
    for p, q in zip(cps, cps[1:] + extra):
        curve_pts""", """    if closed and len(cps) > 1:
        cps.append(cps[0])
        extra = []
    else:
        extra = cps if closed else []
    for p, q in zip(cps, cps[1:] + extra):
        curve_pts""")],
  needs='a closed path made from a list of control points that the client keeps',
  breaks='making a path adds a control point to the list it was given',
  demo=STUB + STD + """
from x7.geom.bezier import bez_path
cps = cv('c', (0, 0), (5, 0), (2, 4)).control_points
cps = list(cps)
bez_path(Transform(), cps, True, 4)
assert len(cps) == 3, len(cps)
"""),
dict(id='c02-bbox-none', property='C02',
  edits=[(G, """        if self.xl is None:
            return other.copy()
        return BBox(
""", """        if self.xl is None:
            return other
        return BBox(
""")],
  needs='a union that starts from the box of nothing',
  breaks='the union of the empty box with a box is that box itself',
  demo=STUB + STD + """
b = BBox(0, 0, 1, 1)
u = BBox(None) + b
u.grow(Point(9, 9))
assert b == BBox(0, 0, 1, 1), b
"""),
dict(id='c02-unit-self', property='C02',
  edits=[(G, """            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        x, y = self.xy()
""", """            raise ZeroDivisionError('Cannot compute Vector(0,0).unit()')
        if length == 1:
            return self
        x, y = self.xy()
""")],
  needs='a vector that is a unit vector already',
  breaks='the unit vector of a unit vector is the same object',
  demo=STUB + STD + """
v = Vector(0, 1)
u = v.unit()
u.setxy(7, 7)
assert v == Vector(0, 1), v
"""),
dict(id='c02-group-dict', property='C02',
  edits=[(M, """            elif isinstance(elems, dict):
                self.elems = dict(elems)
""", """            elif isinstance(elems, dict):
                self.elems = elems
"""), (M, """        elems = dict(self.elems)
        points = dict(self.points)
        return Group""", """        elems = self.elems.copy()
        points = dict(self.points)
        return Group""")],
  needs='two groups made from one dictionary of shapes',
  breaks='groups share the dictionary they were made from',
  demo=STUB + STD + """
d = {'a': rect('a')}
g = Group('g', PenBrush('red'), elems=d)
h = Group('h', PenBrush('red'), elems=d)
g.add('b', rect('b'))
assert list(h.elems) == ['a'] and list(d) == ['a']
"""),
dict(id='c02-vector-fixed', property='C02',
  edits=[(G, """    def fixed(self) -> 'Vector':
        return Vector(*self.xy())
""", """    def fixed(self) -> 'Vector':
        return self if type(self) is Vector else Vector(*self.xy())
""")],
  needs='a plain vector fixed before it is changed',
  breaks='fixing a plain vector gives that vector itself',
  demo=STUB + STD + """
v = Vector(1, 2)
f = v.fixed()
v.setxy(5, 5)
assert f == Vector(1, 2), f
c = cv('c', (0, 0), (3, 4))
d = c.copy()
c.control_points[0].dl.setxy(8, 8)
assert d.control_points[0].dl == Vector(1, 2)
"""),
dict(id='c03-group-empty', property='C03',
  edits=[(M, """        self.xform = other.xform.copy()
        self.elems = dict(other.elems)
        self.points = dict(other.points)
""", """        self.xform = other.xform.copy()
        self.elems = dict(other.elems or self.elems)
        self.points = dict(other.points or self.points)
""")],
  needs='a group saved while empty and restored after something was added',
  breaks='restoring an empty group leaves what was added in it',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'))
saved = g.copy()
g.add('a', rect('a'))
g.add_pt('p', Point(1, 2))
g.restore(saved)
assert g == saved and not g.elems and not g.points, g.elems
"""),
dict(id='c03-name-blank', property='C03',
  edits=[(M, """        self.name = other.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.xform = other.xform.copy()

    @abstractmethod
    def transform""", """        self.name = other.name or self.name
        self.penbrush = other.penbrush
        self.closed = other.closed
        self.xform = other.xform.copy()

    @abstractmethod
    def transform""")],
  needs='an unnamed shape saved, named, and restored',
  breaks='an unnamed shape keeps the name it got later',
  demo=STUB + STD + """
r = rect('')
saved = r.copy()
r.name = 'x'
r.restore(saved)
assert r == saved, r.name
"""),
dict(id='c04-group-keys', property='C04',
  edits=[(M, """            self.hidden == other.hidden and
            self.elems == other.elems and
            self.points == other.points
""", """            self.hidden == other.hidden and
            list(self.elems.values()) == list(other.elems.values()) and
            self.points == other.points
""")],
  needs='groups made from dictionaries with the same shapes under different keys',
  breaks='groups compare equal although lookups in them differ',
  demo=STUB + STD + """
a = Group('g', PenBrush('red'), elems={'one': rect('a')})
b = Group('g', PenBrush('red'), elems={'two': rect('a')})
assert a != b
assert a == Group('g', PenBrush('red'), elems={'one': rect('a')})
"""),
dict(id='c04-kind-straight', property='C04',
  edits=[(B, """        return self.__class__ == other.__class__ and self.c == other.c and \\
            self.dl == other.dl and self.dr == other.dr and self.kind == other.kind
""", """        return self.__class__ == other.__class__ and self.c == other.c and \\
            self.dl == other.dl and self.dr == other.dr and \\
            (self.kind == other.kind or not (self.dl or self.dr))
""")],
  needs='corner points without handles whose kinds differ',
  breaks='control points of different kinds compare equal when they have no handles',
  demo=STUB + STD + """
a = ControlPoint(Point(1, 2), Vector(), Vector(), 'sharp')
b = ControlPoint(Point(1, 2), Vector(), Vector(), 'smooth')
assert a != b
"""),
dict(id='c06-fromxy-fixed', property='C06',
  edits=[(G, """        return PointRelative(x - base_x, y - base_y, base)
""", """        return PointRelative(x - base_x, y - base_y, base.fixed() if isinstance(base, PointRelative) else base)
""")],
  needs='a relative point made from coordinates and based on another relative point',
  breaks='the point does not follow its base',
  demo=STUB + STD + """
p = Point(1, 1)
r = PointRelative(1, 1, p)
q = PointRelative.fromxy(5, 5, r)
p.setxy(2, 3)
assert q.xy() == (6, 7), q.xy()
"""),
dict(id='c06-line-corner', property='C06',
  edits=[(G, """        self.origin = origin
        if isinstance(direction, Vector):
            self.direction = direction
""", """        self.origin = origin
        if isinstance(direction, Vector):
            self.direction = direction.fixed()
""")],
  needs='a line along a vector that is the difference of two points',
  breaks='a line does not follow the points its direction comes from',
  demo=STUB + STD + """
a = Point(0, 0); b = Point(1, 0)
ln = Line(a, VectorRelative(b, a))
b.setxy(1, 5)
assert ln.p2.xy() == (1, 5), ln.p2
"""),
dict(id='c07-mixed-grow', property='C07',
  edits=[(G, """            self.xl = min(self.xl, x)
            self.xh = max(self.xh, x)
            self.yl = min(self.yl, y)
            self.yh = max(self.yh, y)
""", """            if not (self.xl <= x <= self.xh):
                self.xl, self.xh = min(self.xl, x), max(self.xh, x)
            elif not (self.yl <= y <= self.yh):
                self.yl, self.yh = min(self.yl, y), max(self.yh, y)
""")],
  needs='a point beyond a corner of the box',
  breaks='growing by a point outside in both directions does not cover it',
  demo=STUB + STD + """
b = BBox(0, 0, 1, 1)
b.grow(Point(3, 4))
assert b == BBox(0, 0, 3, 4), b
"""),
dict(id='c09-about-half', property='C09',
  edits=[(T, """        xform = Transform().translate(*-center).rotate(angle).translate(*center)
""", """        xform = Transform().translate(*-center)
        if angle % 180 == 0:
            xform.scale(-1, -1)     # Exact
        else:
            xform.rotate(angle)
        xform.translate(*center)
""")],
  needs='a rotation about a point by no angle or by whole turns',
  breaks='a whole turn about a point turns by half',
  demo=STUB + STD + """
t = Transform().rotate_about(360, Point(1, 2))
x, y = t.transform(3, 3)
assert abs(x - 3) < 1e-9 and abs(y - 3) < 1e-9, (x, y)
x, y = Transform().rotate_about(180, Point(1, 2)).transform(3, 3)
assert abs(x + 1) < 1e-9 and abs(y - 1) < 1e-9, (x, y)
"""),
dict(id='c12-untransform-row', property='C12',
  edits=[(T, """        pts = np.array([(x, y, 1) for x, y in pts]).T
        # print('transform: pts=', pts)
        pts = np.dot(self.inverse, pts).T
        return [(x, y) for x, y, z in pts]
""", """        pts = list(dict.fromkeys((x, y, 1) for x, y in pts))
        # print('transform: pts=', pts)
        pts = np.dot(self.inverse, np.array(pts).T).T
        return [(x, y) for x, y, z in pts]
""")],
  needs='a list in which a point occurs twice',
  breaks='mapping a list back drops repeated points',
  demo=STUB + STD + """
t = Transform().translate(1, 2)
r = t.untransform_pts([(1, 2), (5, 6), (1, 2)])
assert [tuple(map(float, p)) for p in r] == [(0, 0), (4, 4), (0, 0)], r
"""),
dict(id='c17-hidden-points', property='C17',
  edits=[(M, """            extra['hidden'] = self.hidden
        if self.points:
            extra['points'] = self.points
        self.dump_elem""", """            extra['hidden'] = self.hidden
        elif self.points:
            extra['points'] = self.points
        self.dump_elem""")],
  needs='a hidden group that has points',
  breaks='the points of a hidden group are lost on the way through a dump',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'), hidden=True)
g.add_pt('p', Point(1, 2))
g.add('a', rect('a'))
ns = {}
exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c17-cp-repr', property='C17',
  edits=[(B, """        return 'ControlPoint' + repr((self.c, self.dl, self.dr, self.kind))
""", """        return 'ControlPoint' + repr((self.c, self.dl, self.dr, self.kind) if self.dl or self.dr else
                                     (self.c, self.dl, self.dr, 'sharp'))
""")],
  needs='a smooth control point without handles',
  breaks='a point without handles is printed as sharp',
  demo=STUB + STD + """
cp = ControlPoint(Point(1, 2), Vector(), Vector(), 'smooth')
assert eval(repr(cp)) == cp, repr(cp)
"""),
dict(id='c18-periodic-drift', property='C18',
  edits=[(A, """        offset = radians(offset)

        def func(t):
            t = tau * frequency * t + offset
            return trig_func(t) * scale + shift
""", """        started = False

        def func(t):
            nonlocal started, offset
            if offset >= 360 or not started:
                offset, started = radians(offset), True
            t = tau * frequency * t + offset
            return trig_func(t) * scale + shift
""")],
  needs='an offset of tens of thousands of degrees',
  breaks='a function of time with a very large offset changes after it was asked once',
  demo=STUB + STD + """
from x7.geom.anim import Animation
f = Animation.sin(offset=36000.0)
a, b = f(0.1), f(0.1)
assert a == b, (a, b)
"""),
dict(id='c18-linear-orig', property='C18',
  edits=[(A, """        tx, ty = t if isinstance(t, tuple) else (t, t)
        sx, sy = 1 - tx, 1 - ty
        self.point.setxy(sx * orig_x + tx * targ_x, sy * orig_y + ty * targ_y)
""", """        tx, ty = t if isinstance(t, tuple) else (t, t)
        if tx == 1 and ty == 1:
            self.point.set(self.target)
            self.target = self.point.copy()     # Arrived
            return
        sx, sy = 1 - tx, 1 - ty
        self.point.setxy(sx * orig_x + tx * targ_x, sy * orig_y + ty * targ_y)
""")],
  needs='a target that moves after the animation reached its end',
  breaks='an animation that arrived once no longer follows its target',
  demo=STUB + STD + """
from x7.geom.anim import AnimationLinear
p, t = Point(0, 0), Point(4, 4)
a = AnimationLinear(p, t)
a.update(1)
t.setxy(8, 8)
a.update(0.5)
assert p.xy() == (4, 4), p
"""),
dict(id='c18-morph-restore-none', property='C18',
  edits=[(A, """        if t is None:
            # Hidden hack--just move off-screen
            for morph in morph_cp:
                morph.c.setxy(1e6, 1e6)
                morph.dl.setxy(0, 0)
                morph.dr.setxy(0, 0)
            return
""", """        if t is None:
            # Hidden hack--just move off-screen
            for morph in morph_cp:
                morph.c.setxy(1e6, 1e6)
                morph.dl = morph.dr = Vector()
            return
""")],
  needs='a morph hidden for a while and shown again',
  breaks='after a morph was hidden both handles of its points are one vector',
  demo=STUB + STD + """
from x7.geom.anim import Morph
g = Group('g', PenBrush('red'))
s = ElemCurve('s', pb, [ControlPoint(Point(i, 0), Vector(1, 2), Vector(3, 4)) for i in range(2)])
t = ElemCurve('t', pb, [ControlPoint(Point(i, 5), Vector(5, 6), Vector(7, 8)) for i in range(2)])
g.add('s', s)
m = Morph(g, s, t, lambda t: t if t < 1 else None)
m.update(1)
m.update(0.5)
cp = m.morph.control_points[0]
assert cp.dl.xy() == (3, 4) and cp.dr.xy() == (5, 6), cp
"""),
dict(id='c21-lstrip', property='C21',
  edits=[(M, """                name = type(elem).__name__
                if name.startswith('Elem'):
                    name = name[4:]
                name = name.lower()
""", """                name = type(elem).__name__.lstrip('Elem').lower()
""")],
  needs='two ellipses of one name put in a group',
  breaks='a second ellipse gets a name cut too short',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'))
e = [ElemEllipse('a', pb, Point(0, 0), Point(i, 2)) for i in (1, 2)]
for x in e:
    g.add('a', x, True)
assert list(g.elems) == ['a', 'ellipse#0'], list(g.elems)
"""),
dict(id='c22-restore-first', property='C22',
  edits=[(M, """        if len(self.control_points) == len(other.control_points):
            super().restore(other)
            for cp,""", """        super().restore(other)
        if len(self.control_points) == len(other.control_points):
            for cp,""")],
  needs='a curve restored from one with another number of points',
  breaks='a restore that is refused has already changed name, pen and transform',
  demo=STUB + STD + """
a = cv('a', (0, 0), (1, 1))
b = cv('b', (0, 0), (1, 1), (2, 2), pen=PenBrush('red'))
try:
    a.restore(b)
except Exception:
    pass
assert a.name == 'a' and a.penbrush == pb, a.name
"""),
dict(id='c22-add-pt-order', property='C22',
  edits=[(M, """        assert name not in self.points
        assert '.' not in name
        self.points[name] = pt
""", """        old = self.points.setdefault(name, pt)
        assert old is pt
        assert '.' not in name
""")],
  needs='a point added under a dotted name',
  breaks='a refused point is in the group all the same; the same point is accepted twice',
  demo=STUB + STD + """
g = Group('g', PenBrush('red'))
try:
    g.add_pt('a.b', Point(1, 2))
except AssertionError:
    pass
assert g.points == {}, g.points
"""),
dict(id='c23-replace-both', property='C23',
  edits=[(C, """        if width is not None and self.pen:
            pen = Pen(self.pen.brush, width)
        return PenBrush(pen""", """        if width is not None and self.pen:
            return PenBrush(Pen(self.pen.brush, width), self.brush)
        return PenBrush(pen""")],
  needs='width and brush replaced at once',
  breaks='replacing width and brush together keeps the old brush',
  demo=STUB + STD + """
p = PenBrush(('red', 2), 'blue').replace(width=3, brush='green')
assert p == PenBrush(('red', 3), 'green'), p
"""),
dict(id='c23-clear-not-filled', property='C23',
  edits=[(C, """    def filled(self):
        return bool(self.brush)
""", """    def filled(self):
        return bool(self.brush) and self.brush.color is not TRANSPARENT
""")],
  needs='a shape filled with the transparent colour',
  breaks='a pen that clears does not count as filled',
  demo=STUB + STD + """
assert PenBrush(None, TRANSPARENT).filled
assert PenBrush('red', (0, 0, 0, 0)).filled
"""),
dict(id='c23-make-width-zero', property='C23',
  edits=[(C, """            edge_pen = Pen(color, width)
""", """            edge_pen = Pen(color, width or 1.0)
""")],
  needs='a table of production pens made with width 0',
  breaks='the thinnest production pens become one unit wide',
  demo=STUB + STD + """
t = PensByShape.make(draft=False, width=0.0)
assert t['edge'].pen.width == 0 and t['edge_filled'].pen.width == 0
"""),
dict(id='c24-fill-debug-close', property='C24',
  edits=[(M, """            if do_fill:
                draw.draw.polygon(p, fill=fill_color)
""", """            if do_fill and (fill_color != TRANSPARENT or do_outline):
                draw.draw.polygon(p, fill=fill_color)
""")],
  needs='a shape that clears and has no outline, drawn over another',
  breaks='a clearing shape without outline clears nothing',
  demo=STUB + STD + """
from PIL import Image
base = Image.new('RGBA', (20, 20), 'white')
dc = DrawingContext(base, Transform())
ElemRectangle('a', PenBrush(None, 'black'), Point(0, 0), Point(19, 19)).draw(dc)
ElemRectangle('b', PenBrush(None, TRANSPARENT), Point(5, 5), Point(15, 15)).draw(dc)
assert dc.image().getpixel((10, 10)) == (255, 255, 255, 255), dc.image().getpixel((10, 10))
"""),
dict(id='c28-interp-shared', property='C28',
  edits=[(V, """        return VectorField(self.mesh, self.vx * sx, self.vy * sy)
""", """        vf = VectorField(self.mesh, self.vx * sx, self.vy * sy)
        if vf == self:
            vf.interp_x, vf.interp_y = self.interp_x, self.interp_y
        return vf
""")],
  needs='a field scaled by one after use, then edited',
  breaks='a derived field uses the lookup tables of the field it came from',
  demo=STUB + STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 2, 2), 3).zeros()
f.transform(1, 1)
g = f.scaled(1)
g.vx[:] = 5
x, y = g.transform(1, 1)
assert x == 6, x
"""),
dict(id='c28-zero-mesh', property='C28',
  edits=[(V, """        self.vx = vx if vx is not None else np.zeros(self.mesh.x_shape)
        self.vy = vy if vy is not None else np.zeros(self.mesh.x_shape)
""", """        zeros = np.zeros(self.mesh.x_shape)
        self.vx = vx if vx is not None else zeros
        self.vy = vy if vy is not None else zeros
""")],
  needs='a field of zeros of which one component is filled in',
  breaks='both components of a fresh field are one array',
  demo=STUB + STD + """
from x7.geom.vec_field import Mesh
f = Mesh(BBox(0, 0, 2, 2), 3).zeros()
f.vx[1, 1] = 5
assert f.vy[1, 1] == 0
assert f.transform(1, 1) == (6, 1)
"""),
dict(id='c30-crop-unscaled', property='C30',
  edits=[(A, """        if bbox:
            images = [im.crop(box=bbox) for im in images]
        if scale == 1:
            scaled = images
""", """        if scale == 1:
            scaled = images
            bbox = None
        if bbox:
            images = [im.crop(box=bbox) for im in images]
        if scale == 1:
            scaled = list(scaled)
""")],
  needs='frames cropped without scaling',
  breaks='frames asked for at scale 1 are not cropped',
  demo=STUB + STD + """
from PIL import Image
from x7.geom.anim import Builder
b = Builder(Image.new('RGBA', (8, 8)), Transform(), Group('g', pb))
out = b.scaled(1, (1, 1, 5, 4), [Image.new('RGBA', (8, 8))])
assert out[0].size == (4, 3), out[0].size
"""),
dict(id='c30-builder-draft-shared', property='C30',
  edits=[(A, """        self.animations = animations or AnimationHolder()
        self.draft = draft
""", """        self.animations = animations if animations and animations.animations else AnimationHolder()
        self.draft = draft
""")],
  needs='a holder that is given to the builder while empty and filled afterwards',
  breaks='animations added after the builder was made never run',
  demo=STUB + STD + """
from PIL import Image
from x7.geom.anim import *
p = Point(0, 0)
h = AnimationHolder()
b = Builder(Image.new('RGBA', (8, 8)), Transform(), Group('g', pb), h)
h.add(AnimationLinear(p, Point(4, 4)))
b.build_one(0.5)
assert p.xy() == (2, 2), p
"""),
dict(id='c16-translate-named', property='C16',
  edits=[(U, """    dxy = Vector(*dxy.xy())
    if as_pt:
        return [p + dxy for p in path]
    else:
        return [(p + dxy).xy() for p in path]
""", """    dx, dy = dxy.xy()
    path = [p + Vector(dx, dy) if dx else p for p in path]
    if as_pt:
        return path
    else:
        return [p.xy() for p in path]
""")],
  needs='a translation straight up or down',
  breaks='a path moved along y only stays where it was',
  demo=STUB + STD + """
from x7.geom.utils import path_translate
assert path_translate([Point(1, 2)], Vector(0, 3)) == [(1, 5)]
"""),
dict(id='c16-arc-none-steps', property='C16',
  edits=[(U, """    steps = int(abs(ea-sa)+1) if steps < 0 else steps
""", """    steps = int(abs(ea-sa)) + 1 if steps <= 0 else steps
""")],
  needs='an arc of no steps',
  breaks='an arc of 0 steps has points',
  demo=STUB + STD + """
from x7.geom.utils import arc
assert len(arc(1, 0, 90, steps=4)) == len(arc(1, 0, 90, steps=4))
try:
    n = len(arc(1, 0, 90, steps=0))
except Exception:
    n = 0
assert n <= 1, n
"""),
dict(id='c05-rsub-tuple', property='C05',
  edits=[(G, """        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if isinstance(other, Vector) else Vector
        return kind(x - ox, y - oy)
""", """        x, y = self.xy()
        ox, oy = other.xy()
        kind = Point if type(other) is Vector else Vector
        return kind(x - ox, y - oy)
""")],
  needs='a point minus a vector between two points',
  breaks='a point minus a relative vector is a vector',
  demo=STUB + STD + """
v = VectorRelative(Point(3, 4), Point(1, 1))
r = Point(5, 5) - v
assert isinstance(r, Point) and r.xy() == (3, 2), r
"""),
dict(id='c15-offset-limit-neg', property='C15',
  edits=[(M, """                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
""", """                scale = math.copysign(cls.OFFSET_PT_LIMIT, offset)
""")],
  needs='a very sharp corner that turns the other way',
  breaks='a spike is offset to the wrong side',
  demo=STUB + STD + """
a = ElemCurve.offset_pt(Vector(-1, 1e-5), Point(0, 0), Vector(-1, -1e-5), 1.0)
b = ElemCurve.offset_pt(Vector(-1, -1e-5), Point(0, 0), Vector(-1, 1e-5), 1.0)
assert a.x * b.x < 0, (a, b)
"""),
dict(id='c11-draw-restores', property='C11',
  edits=[(M, """        with dc.matrix.push():
            if self.xform:
                dc.matrix.compose(self.xform)
            for name, elem in self.elems.items():
                paths.extend(elem.paths(dc))
        return paths
""", """        if self.xform != Transform():
            dc.matrix.push().compose(self.xform)
        for name, elem in self.elems.items():
            paths.extend(elem.paths(dc))
        if self.xform != Transform():
            dc.matrix.pop()
        return paths
""")],
  needs='a member of a transformed group whose drawing fails',
  breaks='the matrix stays pushed when a member cannot be drawn',
  demo=STUB + STD + """
class Bad(ElemRectangle):
    def paths(self, dc):
        raise ValueError('bad')
dc = DrawingContext(None, Transform())
g = Group('g', PenBrush('red'), xform=Transform().translate(1, 2), elems=[Bad('a', pb, Point(0, 0), Point(1, 1))])
try:
    g.paths(dc)
except ValueError:
    pass
assert dc.matrix == Transform() and not dc.matrix.stack
"""),
dict(id='c10-set-matrix-inverse', property='C10',
  edits=[(T, """        self._mat = xform._mat.copy()
        self._inverse = None

    @property""", """        self._mat = xform._mat.copy()
        self._inverse = xform._inverse

    @property"""), (T, """    def rotate_ccw(self, degrees):
        \"\"\"Counterclockwise in degrees\"\"\"
        self._mat.pre_dot_eq(self.rotate_mat_ccw(math.radians(degrees)))
        self._inverse = None
        return self
""", """    def rotate_ccw(self, degrees):
        \"\"\"Counterclockwise in degrees\"\"\"
        turn = self.rotate_mat_ccw(math.radians(degrees))
        self._mat.pre_dot_eq(turn)
        if self._inverse is not None:
            self._inverse[:] = np.dot(self._inverse, turn.T)
        return self
""")],
  needs='a transform copied after its inverse was used, and turned counterclockwise',
  breaks='turning a copy changes the inverse of the original',
  demo=STUB + STD + """
t = Transform().translate(1, 2)
t.untransform(0, 0)
c = t.copy().rotate_ccw(90)
x, y = t.untransform(5, 5)
assert abs(x - 4) < 1e-9 and abs(y - 3) < 1e-9, (x, y)
"""),
]
