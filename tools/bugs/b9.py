G = 'x7/geom/geom.py'; T = 'x7/geom/transform.py'; M = 'x7/geom/model.py'; B = 'x7/geom/bezier.py'
A = 'x7/geom/anim.py'; D = 'x7/geom/drawing.py'; C = 'x7/geom/colors.py'; U = 'x7/geom/utils.py'
V = 'x7/geom/vec_field.py'; S = 'x7/geom/testing.py'; AS = 'x7/geom/anim_simple.py'
STUB = """
import sys, types
m = types.ModuleType('x7.geom.plot_viewer'); m.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = m
"""
STD = """
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import *
from x7.geom.transform import *
from x7.geom.drawing import DrawingContext
pb = PenBrush('black')
def rect(n, x=0, y=0, **kw):
    return ElemRectangle(n, kw.pop('pen', pb), Point(x, y), Point(x + 1, y + 2), **kw)
def cv(n, *pts, **kw):
    return ElemCurve(n, kw.pop('pen', pb), [ControlPoint(Point(*p), Vector(1, 2), Vector(-1, 2)) for p in pts], **kw)
"""
BUGS = [
dict(id='c01-output-twice', property='C01',
  edits=[(M, '''        var_lines.append('')
        return '\\n'.join(var_lines + ['model = ' + self.lines[0]] + self.lines[1:])
''', '''        var_lines.append('')
        self.lines[0] = 'model = ' + self.lines[0]
        return '\\n'.join(var_lines + self.lines)
''')],
  needs='the text of a dump asked for twice', breaks='the second text starts with model = model =',
  demo=STD + """
d = Group('g', pb, elems=[rect('a')]).dump()
assert d.output() == d.output()
"""),
dict(id='c01-output-sorts-imports', property='C01',
  edits=[(M, '''        self.imports = [] + self.DEFAULT_IMPORTS
''', '''        self.imports = self.DEFAULT_IMPORTS
''')],
  needs='a dump of a shape that needs imports of its own', breaks='the imports of one dump show up in every later dump',
  demo=STD + """
class My(ElemRectangle):
    ELEM_IMPORTS = ['import math']
before = DumpContext().output.__self__.imports[:]
d = DumpContext()
My('m', pb, Point(0, 0), Point(1, 1)).dump(d)
assert DumpContext().imports == before
"""),
dict(id='c18-multi-targets-list', property='C18',
  edits=[(A, '''        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
''', '''        targets.insert(0, (0.0, source.copy()))
        all_steps, all_curves = zip(*targets)
''')],
  needs='one list of targets used for two morphs', breaks='the second morph starts from the source of the first',
  demo=STD + """
from x7.geom.anim import *
a = cv('a', (0, 0), (5, 0)); b = cv('b', (10, 10), (15, 10)); t = cv('t', (20, 0), (25, 0))
m = Group('m', pb, elems=[a, b])
targets = [(1.0, t)]
MorphMultiStep(m, a, targets, Animation.identity())
assert len(targets) == 1
"""),
dict(id='c02-matrix-asarray', property='C02',
  edits=[(T, '''np.array(mat3x3, dtype=float)
''', '''np.asarray(mat3x3, dtype=float)
''')],
  needs='a copy of a matrix whose numbers are written in place', breaks='writing into the copy changes the original',
  demo=STD + """
a = Matrix(); b = a.copy()
b.ndmat[0, 2] = 5
assert a.ndmat[0, 2] == 0
"""),
dict(id='c02-radius-zero-corner', property='C02',
  edits=[(M, '''        bab = b+ab
''', '''        bab = b+ab if new_radius else b
''')],
  needs='the control points of a rounded rectangle of radius zero', breaks='moving a control point moves the corner of the rectangle',
  demo=STD + """
r = ElemRectangleRounded('r', pb, Point(0, 0), Point(4, 4), 0)
cps = r.make_control_points()
for cp in cps:
    cp.c.setxy(99, 99)
assert r.p1.xy() == (0, 0) and r.p2.xy() == (4, 4)
"""),
dict(id='c02-line-shared-origin', property='C02',
  edits=[(G, '''        normal = self.direction.normal()
        t_other''', '''        if self.origin == other.origin:
            return other.origin
        normal = self.direction.normal()
        t_other''')],
  needs='the crossing of two lines from equal origins, then moved', breaks='moving the crossing moves a line',
  demo=STD + """
a = Line(Point(1, 1), Vector(1, 0)); b = Line(Point(1, 1), Vector(0, 1))
p = a.intersection(b); p.setxy(9, 9)
assert a.origin.xy() == (1, 1) and b.origin.xy() == (1, 1)
"""),
dict(id='c03-close-skip', property='C03',
  edits=[(M, '''            for cp, ocp in zip(self.control_points, other.control_points):
                cp.restore(ocp)
''', '''            for cp, ocp in zip(self.control_points, other.control_points):
                if not cp.close(ocp, 1e-3):
                    cp.restore(ocp)
''')],
  needs='a curve moved by very little', breaks='the small move is not undone',
  demo=STD + """
c = cv('c', (0, 0), (5, 5)); s = c.copy()
c.control_points[0].c.setxy(0.0004, 0)
c.restore(s)
assert c == s
"""),
dict(id='c03-restore-in-place', property='C03',
  edits=[(B, '''        self.c = copy.c.copy()
        self.dl = copy.dl.copy()
        self.dr = copy.dr.copy()
        self.kind = copy.kind
''', '''        self.c = copy.c.copy()
        if type(self.dl) is type(self.dr) is Vector:
            self.dl.set(copy.dl)
            self.dr.set(copy.dr)
        else:
            self.dl = copy.dl.copy()
            self.dr = copy.dr.copy()
        self.kind = copy.kind
''')],
  needs='a control point whose two handles are the same vector object', breaks='both handles get the right handle that was saved',
  demo=STD + """
v = Vector(1, 2)
a = ControlPoint(Point(0, 0), v, v)
a.restore(ControlPoint(Point(1, 1), Vector(3, 4), Vector(5, 6)))
assert a == ControlPoint(Point(1, 1), Vector(3, 4), Vector(5, 6))
"""),
dict(id='c03-holes-closed', property='C03',
  edits=[(M, '''        self.closed = other.closed
        self.xform = other.xform.copy()
        self.outside = other.outside.copy()
''', '''        self.xform = other.xform.copy()
        self.outside = other.outside.copy()
''')],
  needs='an open shape with holes', breaks='whether it is closed is not restored',
  demo=STD + """
def mk(closed): return ElemWithHoles('w', PenBrush('ink'), cv('o', (0,0),(9,9), pen=PenBrush('ink')), [], closed)
a = mk(True); b = mk(False)
a.restore(b)
assert a == b
"""),
dict(id='c04-holes-as-set', property='C04',
  edits=[(M, '''            self.outside == other.outside and
            self.inside == other.inside
''', '''            self.outside == other.outside and
            len(self.inside) == len(other.inside) and all(hole in other.inside for hole in self.inside)
''')],
  needs='two equal holes on one side, two different ones on the other', breaks='equal one way round and not the other',
  demo=STD + """
def w(*xs): return ElemWithHoles('w', pb, rect('o'), [rect('h', x) for x in xs])
assert (w(1, 1) == w(1, 2)) == (w(1, 2) == w(1, 1))
"""),
dict(id='c04-bbox-tuple', property='C04',
  edits=[(G, '''        return type(self) is type(other) and \\
            self.xl == other.xl and self.yl == other.yl and \\
            self.xh == other.xh and self.yh == other.yh
''', '''        return self.as_tuple() == tuple(other)
''')],
  needs='a box compared with something that is no box', breaks='raises, or is equal to a tuple',
  demo=STD + """
assert BBox(0, 0, 1, 1) != None
assert BBox(0, 0, 1, 1) != 5
"""),
dict(id='c05-bool-sum', property='C05',
  edits=[(G, '''        return bool(self._x or self._y)
''', '''        return bool(self._x + self._y)
''')],
  needs='a vector whose parts cancel', breaks='Vector(1, -1) counts as zero',
  demo=STD + """
assert Vector(1, -1)
"""),
dict(id='c05-close-axes', property='C05',
  edits=[(G, '''    def close(self, other: 'BasePoint', max_delta=1e-11):
        return (self - other).length() < max_delta
''', '''    def close(self, other: 'BasePoint', max_delta=1e-11):
        x, y = (self - other).xy()
        return abs(x) < max_delta and abs(y) < max_delta
''')],
  needs='two points apart in both axes by just less than the distance allowed', breaks='they count as close',
  demo=STD + """
assert not Point(0, 0).close(Point(3, 3), 4)
"""),
dict(id='c05-add-point-int', property='C06',
  edits=[(G, '''    def __neg__(self) -> 'Point':
        x, y = self.xy()
        return Point(-x, -y)
''', '''    def __neg__(self) -> 'Point':
        x, y = self.xy()
        return Point(-x, -y) if x or y else self
''')],
  needs='a point at the origin, negated, then moved', breaks='the negated point is the point itself',
  demo=STD + """
p = Point(0, 0); q = -p
p.setxy(3, 4)
assert q.xy() == (0, 0)
"""),
dict(id='c06-v-live', property='C06',
  edits=[(G, '''    @property
    def v(self):
        return Vector(*self.xy())
''', '''    @property
    def v(self):
        return VectorRelative(self, Point(0, 0))
''')],
  needs='the vector to a relative point, kept while its base moves', breaks='the kept vector moves too',
  demo=STD + """
b = Point(1, 1); p = PointRelative(1, 1, b); v = p.v
b.setxy(5, 5)
assert v.xy() == (2, 2)
"""),
dict(id='c06-zero-link', property='C06',
  edits=[(G, '''        self.dx = dx
        self.dy = dy
        self.base = base
''', '''        self.dx = dx
        self.dy = dy
        if isinstance(base, PointRelative) and not (base.dx or base.dy):
            base = base.base
        self.base = base
''')],
  needs='a point relative to a relative point of no offset, whose offset is then changed', breaks='the point does not follow',
  demo=STD + """
a = Point(1, 1); b = PointRelative(0, 0, a); c = PointRelative(2, 2, b)
b.dx = 7
assert c.xy() == (10, 3), c.xy()
"""),
dict(id='c06-vrel-base-copy', property='C06',
  edits=[(G, '''        self._p1 = p1
        self._p2 = p2
''', '''        self._p1 = p1
        self._p2 = p1 if p1 == p2 else p2
''')],
  needs='a vector between two points that are equal when it is made', breaks='moving the second point changes nothing',
  demo=STD + """
a, b = Point(1, 1), Point(1, 1); v = VectorRelative(a, b)
b.setxy(0, 0)
assert v.xy() == (1, 1)
"""),
dict(id='c07-hidden-member', property='C07',
  edits=[(M, '''        for elem in self.elems.values():
            bbox = bbox + elem.bbox()
        return bbox
''', '''        for elem in self.elems.values():
            if not getattr(elem, 'hidden', False):
                bbox = bbox + elem.bbox()
        return bbox
''')],
  needs='a group with a hidden sub-group', breaks='the box does not cover the hidden members',
  demo=STD + """
g = Group('g', pb, elems=[rect('a'), Group('h', pb, hidden=True, elems=[rect('b', 10, 10)])])
assert g.bbox().as_tuple() == (0, 0, 11, 12), g.bbox()
"""),
dict(id='c07-two-corners', property='C07',
  edits=[(M, '''        b1 = BBox(self.xform.transform_pt(bb.pll), self.xform.transform_pt(bb.phh))
        b2 =''', '''        b1 = BBox(self.xform.transform_pt(bb.pll), self.xform.transform_pt(bb.phh))
        if self.xform.scale_vals() == (1, 1):
            return b1
        b2 =''')],
  needs='a shape turned by 45 degrees or sheared', breaks='the box of a turned shape misses two corners',
  demo=STD + """
e = ElemRectangle('r', pb, Point(0, 0), Point(4, 4), xform=Transform((.6, .8, 0, -.8, .6, 0)))
bb = e.bbox()
for p in e.points():
    q = e.xform.transform_pt(p)
    assert bb.xl - 1e-9 <= q.x <= bb.xh + 1e-9 and bb.yl - 1e-9 <= q.y <= bb.yh + 1e-9
"""),
dict(id='c08-contains-high', property='C08',
  edits=[(G, '''        return self.xl < x < self.xh and self.yl < y < self.yh

    def contains(''', '''        return self.xl < x < self.xh and self.yl < y <= self.yh

    def contains(''')],
  needs='a point on the top edge of a box', breaks='it is both inside and on the border',
  demo=STD + """
assert not BBox(0, 0, 4, 4).contains_pt(Point(2, 4))
"""),
dict(id='c11-group-cps-raise', property='C11',
  edits=[(M, '''        paths = []
        with self.draw_space(dc):
            for name, elem in self.elems.items():
                paths.extend(elem.control_paths(dc))
        return paths
''', '''        paths = []
        self.draw_space(dc)
        for name, elem in self.elems.items():
            paths.extend(elem.control_paths(dc))
        dc.matrix.pop()
        return paths
''')],
  needs='a member that fails while its control paths are computed', breaks='the pushed matrix stays',
  demo=STD + """
class Bad(ElemRectangle):
    def control_paths(self, dc): raise ValueError
g = Group('g', pb, elems=[Bad('b', pb, Point(0,0), Point(1,1))])
dc = DrawingContext(None, None)
try: g.control_paths(dc)
except ValueError: pass
assert not dc.matrix.stack
"""),
dict(id='c12-flatten-pairs', property='C12',
  edits=[(T, '''        elif isinstance(pts[0], BasePoint):
            return [Point''', '''        elif isinstance(pts[0], Point):
            return [Point''')],
  needs='a list of relative points', breaks='plain pairs come back instead of points',
  demo=STD + """
b = Point(0, 0)
r = Transform().transform_pts([PointRelative(1, 2, b), PointRelative(3, 4, b)])
assert isinstance(r[0], Point)
"""),
dict(id='c12-very-smooth-left', property='C12',
  edits=[(B, '''                cp.dr = (cp.dr - cp.dl) / 2
                cp.dl = -cp.dr
''', '''                cp.dl = -cp.dr
''')],
  needs='a very smooth control point under a transformer that is not linear', breaks='the left handle is ignored',
  demo=STD + """
class W(Transformer):
    LINEAR = False
    def transform_np_pts(self, p): return [(x * x, y, 1) for x, y, _ in p.T]
cp = ControlPoint(Point(1, 0), Vector(-1, 0), Vector(1, 0), 'very-smooth').transform(W())
assert cp.dr == Vector(2.0, 0.0), cp
"""),
dict(id='c13-rounded-elliptic', property='C13',
  edits=[(M, '''        radius = (p1r-p1).length()
''', '''        radius = min(self.radius, (p1r-p1).length())
''')],
  needs='a rounded rectangle enlarged', breaks='its corners keep the old radius',
  demo=STD + """
r = ElemRectangleRounded('r', pb, Point(0, 0), Point(10, 10), 2)
assert abs(r.transform(Transform().scale(3, 3)).radius - 6) < 1e-9
"""),
dict(id='c13-center-inner', property='C13',
  edits=[(M, '''        return self.bbox().center
''', '''        return self.bbox_int().center
''')],
  needs='the centre of a shape with a transform', breaks='the centre is in the own space',
  demo=STD + """
r = rect('r', xform=Transform().translate(10, 0))
assert r.center().xy() == (10.5, 1)
"""),
dict(id='c14-two-closed', property='C14',
  edits=[(B, '''    if closed:
        extra = cps
''', '''    if closed and len(cps) > 2:
        extra = cps
''')],
  needs='a closed path of two control points', breaks='the way back is not drawn',
  demo=STD + """
cps = [ControlPoint(Point(0, 0), Vector(0, -1), Vector(0, 1)), ControlPoint(Point(4, 0), Vector(0, 1), Vector(0, -1))]
p = bez_path(Transform(), cps, True, 4)
assert tuple(p[-2:]) == (0, 0), p
"""),
dict(id='c15-offset-xform-kept', property='C15',
  edits=[(M, '''        transformed = self.transform(Transform())
        points =''', '''        transformed = self if self.xform.is_simple() else self.transform(Transform())
        points =''')],
  needs='a curve moved or scaled by its transform', breaks='its offset is computed in the curve s own space',
  demo=STD + """
c = ElemCurve('c', pb, [ControlPoint(Point(*p), Vector(), Vector()) for p in [(0,0),(4,0),(4,4),(0,4)]], xform=Transform().translate(100, 0))
o = c.offset(0)
assert all(cp.c.x >= 99 for cp in o.control_points)
"""),
dict(id='c15-split-middle-kind', property='C15',
  edits=[(B, '''        return [cp.reversed() for cp in reversed(cps)]
''', '''        return [cp if cp.dl == cp.dr else cp.reversed() for cp in reversed(cps)]
''')],
  needs='a reversed list with a control point of two equal handles, moved afterwards', breaks='the reversed list shares that control point',
  demo=STD + """
a = ControlPoint(Point(0, 0), Vector(), Vector())
r = ControlPoint.reverse_list([a])
r[0].dl = Vector(5, 5)
assert a.dl == Vector()
"""),
dict(id='c16-check-first', property='C16',
  edits=[(U, '''    for elem in lst:
        if not isinstance(elem, BasePoint):
            raise ValueError''', '''    for elem in lst[:1]:
        if not isinstance(elem, BasePoint):
            raise ValueError''')],
  needs='a list whose second member is no point', breaks='it is accepted',
  demo=STUB + STD + """
from x7.geom.utils import check_point_list
try: check_point_list([Point(0, 0), (1, 2)])
except ValueError: pass
else: raise SystemExit(1)
"""),
dict(id='c16-arc2p-relative', property='C16',
  edits=[(U, '''    dxy = Vector(*dxy.xy())
    if as_pt:
''', '''    dxy = dxy if isinstance(dxy, Vector) else Vector(*dxy.xy())
    if not dxy:
        return list(path)
    if as_pt:
''')],
  needs='a path translated by nothing, as pairs', breaks='points come back instead of pairs',
  demo=STUB + STD + """
from x7.geom.utils import path_translate
assert path_translate([Point(1, 2)], Vector(0, 0)) == [(1, 2)]
"""),
dict(id='c17-points-sorted-by-repr', property='C17',
  edits=[(M, '''        if self.points:
            extra['points'] = self.points
''', '''        if self.points:
            extra['points'] = {name: pt.fixed() for name, pt in self.points.items()}
''')],
  needs='a dumped group with named points', breaks='the points are loaded under other names of their own',
  demo=STD + """
g = Group('g', pb); g.add_pt('p', Point(1, 2))
ns = {}; exec(g.dump().output(), ns)
assert ns['model'] == g
"""),
dict(id='c17-vrel-string', property='C17',
  edits=[(G, '''        return '%s(%r, %r)' % (self.__class__.__name__, self._p1, self._p2)
''', '''        return 'Vector(%s, %s)' % self.xy()
''')],
  needs='a dumped curve with a handle between two points', breaks='the handle is loaded as a plain vector',
  demo=STD + """
v = VectorRelative(Point(1, 2), Point(0, 0))
assert eval(repr(v)) == v
"""),
dict(id='c18-holder-same-time', property='C18',
  edits=[(A, '''        for animation in self.animations:
            animation.update(t)
''', '''        if t == getattr(self, 'shown', None):
            return
        self.shown = t
        for animation in self.animations:
            animation.update(t)
''')],
  needs='a holder updated twice to one time, with the point moved in between', breaks='the second update does nothing',
  demo=STD + """
from x7.geom.anim import *
p = Point(0, 0); h = AnimationHolder(); h.add(AnimationLinear(p, Point(10, 10)))
h.update(0.5); p.setxy(3, 3); h.update(0.5)
assert p.xy() == (5, 5)
"""),
dict(id='c18-rebase-at-zero', property='C18',
  edits=[(A, '''        orig_x, orig_y = self.orig.xy()
        targ_x''', '''        if t == 0:
            self.orig = Point(*self.point.xy())
        orig_x, orig_y = self.orig.xy()
        targ_x''')],
  needs='an animation shown at time zero after a later time', breaks='it starts from where it was last shown',
  demo=STD + """
from x7.geom.anim import *
p = Point(0, 0); a = AnimationLinear(p, Point(10, 10))
a.update(0.5); a.update(0)
assert p.xy() == (0, 0), p
"""),
dict(id='c18-morph-reorders', property='C18',
  edits=[(A, '''        all_steps, all_curves = zip(*([(0.0, source.copy())] + targets))
''', '''        all_steps, all_curves = zip(*([(0.0, source)] + targets))
''')],
  needs='a source whose first point is not its lower left, restored after a morph', breaks='the source comes back with its points rotated',
  demo=STD + """
from x7.geom.anim import *
a = cv('a', (9, 9), (0, 0), (9, 0)); s = a.copy()
m = Group('m', pb, elems=[a])
mm = MorphMultiStep(m, a, [(1.0, cv('t', (0, 0), (5, 5), (5, 0)))], Animation.identity())
mm.restore()
assert m.lookup('a') == s
"""),
dict(id='c21-edit-key', property='C21',
  edits=[(M, '''                self.elems = dict(elems)
''', '''                self.elems = elems
''')],
  needs='two groups made from one dict of members', breaks='adding to one group adds to the other',
  demo=STD + """
d = {'a': rect('a')}
g = Group('g', pb, elems=d); h = Group('h', pb, elems=d)
g.add('b', rect('b'))
assert 'b' not in h.elems and 'b' not in d
"""),
dict(id='c21-iter-named', property='C21',
  edits=[(M, '''            xf.name = base+'.outside.'+xf.name
''', '''            xf.name = base+'.outside'
''')],
  needs='the transformed parts of a shape with holes', breaks='the name of the outside cannot be looked up',
  demo=STD + """
w = ElemWithHoles('w', pb, rect('o'), [])
names = [e.name for e in w.iter_elems_transformed()]
assert names == ['w.outside.o'], names
"""),
dict(id='c23-replace-no-pen', property='C23',
  edits=[(C, '''        if width is not None and self.pen:
            pen = Pen(self.pen.brush, width)
''', '''        if width is not None:
            pen = Pen(self.pen.brush if self.pen else self.brush, width)
''')],
  needs='a fill-only brush in a table whose widths are replaced', breaks='fill-only shapes get an outline',
  demo=STD + """
t = PensByShape.make(False).replace_width(3)
assert not t['filled'].stroked
"""),
dict(id='c23-colour-case', property='C23',
  edits=[(C, '''    return None if color == NOCOLOR else color
''', '''    return None if not color or color == NOCOLOR else color
''')],
  needs='colours given as the number 0', breaks='the palette colour 0 becomes no colour',
  demo=STD + """
c = Colors(0, 0)
assert c.filled and c.outline == 0
"""),
dict(id='c24-shadow-translucent', property='C24',
  edits=[(M, '''            if draw.shadow_color and path.penbrush.fill_color != TRANSPARENT:
''', '''            if draw.shadow_color and not (isinstance(path.penbrush.fill_color, tuple)
                                          and len(path.penbrush.fill_color) == 4
                                          and path.penbrush.fill_color[3] < 255):
''')],
  needs='the shadow of a shape filled with a translucent colour', breaks='the shadow has the colour of the filling',
  demo=STD + """
class Rec:
    def __init__(self): self.fills = []
    def polygon(self, p, fill): self.fills.append(fill)
    def line(self, *a, **k): pass
    def ellipse(self, *a, **k): pass
dc = DrawingContext(None, None); dc.draw = Rec(); dc.shadow_color = 'grey'
rect('r', pen=PenBrush(None, (1, 2, 3, 128))).draw(dc)
assert dc.draw.fills == ['grey'], dc.draw.fills
"""),
dict(id='c24-joint-diameter', property='C24',
  edits=[(M, '''            rad = max(1, round(path.penbrush.stroke_width(draw.matrix))) / 2
''', '''            rad = max(1, round(path.penbrush.stroke_width(draw.matrix)))
''')],
  needs='a wide pen', breaks='the joints of a line are twice as wide as the line',
  demo=STD + """
class Rec:
    def __init__(self): self.e = []
    def ellipse(self, c, **k): self.e.append(c)
    def polygon(self, *a, **k): pass
    def line(self, *a, **k): pass
dc = DrawingContext(None, None); dc.draw = Rec()
rect('r', pen=PenBrush(('red', 10))).draw(dc)
assert all(c[2] - c[0] <= 10 for c in dc.draw.e), dc.draw.e
"""),
dict(id='c24-cp-handle-order', property='C24',
  edits=[(M, '''                    draw.draw.line(cp.c.xy() + cp.r.xy(), fill='grey')
''', '''                    draw.draw.line(cp.l.xy() + cp.r.xy(), fill='grey')
''')],
  needs='control points shown for a corner', breaks='the right handle is drawn from the left one',
  demo=STD + """
class Rec:
    def __init__(self): self.l = []
    def line(self, c, **k): self.l.append(tuple(c))
    def rectangle(self, *a, **k): pass
    def ellipse(self, *a, **k): pass
dc = DrawingContext(None, None); dc.draw = Rec()
cv('c', (0, 0), (5, 5)).draw_control_points(dc)
assert (0, 0, -1, 2) in dc.draw.l, dc.draw.l
"""),
dict(id='c25-group-str-points', property='C25',
  edits=[(M, '''        for name, pt in sorted(self.points.items()):
            print('%sPoint: %s %s' % (prefix, name, pt))
''', '''        for name, pt in sorted(self.points.items()):
            print('%sPoint: %s %s %s' % (prefix, name, pt, pt.base.name if hasattr(pt, 'base') and pt.base.name else ''.join(['%.2f' % v for v in (pt.dx, pt.dy)]) if hasattr(pt, 'base') else ''))
''')],
  needs='a group with a computed point on an unnamed base', breaks='it cannot be displayed',
  demo=STD + """
b = PointRelative(1, 1, Point(0, 0))
g = Group('g', pb, points={'c': PointCalc(b, 2)})
g.display()
"""),
dict(id='c25-cp-str', property='C25',
  edits=[(M, '''        for name, elem in sorted(self.elems.items()):
            elem.display''', '''        for name, elem in sorted((e.name, e) for e in self.elems.values()):
            elem.display''')],
  needs='two members of one name in a group made from a dict', breaks='the group cannot be displayed',
  demo=STD + """
Group('g', pb, elems={'a': rect('x'), 'b': rect('x')}).display()
"""),
dict(id='c27-endpoint-open', property='C27',
  edits=[(G, '''        if t_self < 0 or t_self > 1:
            return None
        debug = True
''', '''        if t_self <= 0 or t_self > 1:
            return None
        debug = True
''')],
  needs='segments meeting at the start of the first', breaks='the crossing is not found',
  demo=STD + """
a = Line.from_pts(Point(1, 1), Point(4, 4)); b = Line.from_pts(Point(0, 2), Point(3, -1))
assert a.segment_intersection(b) is not None
"""),
dict(id='c27-add-direction', property='C27',
  edits=[(G, '''        return Line(self.origin + vector, self.direction)
''', '''        return Line.from_pts(self.origin + vector, self.p2)
''')],
  needs='a line moved by a vector', breaks='its far end stays',
  demo=STD + """
l = Line(Point(0, 0), Vector(1, 0)) + Vector(0, 5)
assert l.direction == Vector(1, 0)
"""),
dict(id='c28-copy-interp', property='C28',
  edits=[(V, '''        return VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))
''', '''        dup = VectorField(self.mesh, np.copy(self.vx), np.copy(self.vy))
        dup.interp_x, dup.interp_y = self.interp_x, self.interp_y
        return dup
''')],
  needs='a field looked up, copied, and the copy changed before its first lookup', breaks='the copy still answers with the old vectors',
  demo=STUB + STD + """
from x7.geom.vec_field import *
f = Mesh(BBox(0, 0, 1, 1), 2).zeros(); f.lookup(0, 0)
c = f.copy(); c.vx[:] = 5
assert c.lookup(0, 0)[0] == 5
"""),
dict(id='c28-scaled-interp', property='C28',
  edits=[(V, '''        return VectorField(self.mesh, self.vx * sx, self.vy * sy)
''', '''        if sx == sy == 1:
            return self
        return VectorField(self.mesh, self.vx * sx, self.vy * sy)
''')],
  needs='a field scaled by one', breaks='the scaled field is the field itself',
  demo=STUB + STD + """
from x7.geom.vec_field import *
f = Mesh(BBox(0, 0, 1, 1), 2).zeros(); s = f.scaled(1)
s.vx[:] = 3
assert f.vx[0, 0] == 0
"""),
dict(id='c28-uniform-positive', property='C28',
  edits=[(V, '''                vf.vy[i, j] = random.uniform(-magnitude, magnitude)
''', '''                vf.vy[i, j] = vf.vx[i, j] + random.uniform(-magnitude, magnitude)
''')],
  needs='a random field', breaks='vectors longer than asked for',
  demo=STUB + STD + """
import random
random.uniform = lambda a, b: b
from x7.geom.vec_field import *
f = Mesh(BBox(0, 0, 1, 1), 2).uniform(1)
assert f.vy.max() <= 1
"""),
dict(id='c29-elem-xform', property='C29',
  edits=[(M, '''        xformed = self.control_points_transformed(self.xform)
''', '''        xformed = self.control_points if self.xform.is_simple() else self.control_points_transformed(self.xform)
''')],
  needs='a curve that crosses itself and is moved by its transform', breaks='the parts are not where the curve is',
  demo=STD + """
import x7.geom.bezier as bz
bz.bz_plot_curves = lambda *a, **k: None
c = ElemCurve('c', pb, [ControlPoint(Point(0, 0), Vector(0, -1), Vector(0, -1)), ControlPoint(Point(2, 0), Vector(0, -1), Vector(0, 1))], xform=Transform().translate(100, 0))
c.control_points = [ControlPoint(Point(0, 0), Vector(0, -1), Vector(0, 1)), ControlPoint(Point(2, 0), Vector(0, -1), Vector(0, 1))]
import x7.geom.model as md
got = []
md.bez_self_intersect = lambda cps, debug=False: got.extend(cps) or []
c.self_intersect()
assert all(cp.c.x >= 100 for cp in got), got
"""),
dict(id='c30-shadow-raise', property='C30',
  edits=[(D, '''            background = Image.alpha_composite(self.background, self.shadow)
''', '''            self.background.alpha_composite(self.shadow)
            background = self.background
''')],
  needs='a picture with a shadow, asked for', breaks='the given picture gets the shadow for good',
  demo=STD + """
from PIL import Image
im = Image.new('RGBA', (20, 20), 'white'); dc = DrawingContext(im, None)
dc.shadow_draw(ElemRectangle('r', PenBrush(None, 'red'), Point(2, 2), Point(9, 9)))
dc.image()
assert im.getcolors() == [(400, (255, 255, 255, 255))], im.getcolors()
"""),
dict(id='c30-reuse-context', property='C30',
  edits=[(A, '''        drawing = DrawingContext(self.base, matrix=self.matrix, prod=not self.draft)
''', '''        if getattr(self, 'drawing', None) is None or step == 0:
            self.drawing = DrawingContext(self.base, matrix=self.matrix, prod=not self.draft)
        drawing = self.drawing
''')],
  needs='a second frame', breaks='every frame shows the earlier ones too',
  demo=STD + """
from x7.geom.anim import *
from PIL import Image
p = Point(5, 5)
e = cv('c', (2, 2), (4, 4))
g = Group('g', pb, elems=[e])
b = Builder(Image.new('RGBA', (30, 30), 'white'), Transform(), g)
b.build_one(0, 0)
g.hidden = True
assert len(b.build_one(0.5, 1).getcolors()) == 1
"""),
dict(id='c30-resize-half', property='C30',
  edits=[(A, '''            a = getalpha(shrunk).point(lambda v: 0 if v < 255 else 255)
''', '''            a = getalpha(shrunk).point(lambda v: 0 if v < 16 else v)
''')],
  needs='a frame with a soft edge, shrunk', breaks='half transparent pixels remain',
  demo=STD + """
from x7.geom.anim import *
from PIL import Image
im = Image.new('RGBA', (8, 8), (0, 0, 0, 0)); im.paste((255, 0, 0, 255), (0, 0, 5, 5))
r = Builder.resize_for_gif(im, 4, 4)
assert set(r.split()[-1].getdata()) <= {0, 255}
"""),
dict(id='c30-images-param', property='C30',
  edits=[(A, '''        images = images or self.images
        if bbox:
            images = [im.crop(box=bbox) for im in images]
''', '''        images = images or self.images
        if bbox:
            images = [im.crop(box=bbox) for im in self.images]
''')],
  needs='pictures handed in, with a box', breaks='the builder frames are cropped instead',
  demo=STD + """
from x7.geom.anim import *
from PIL import Image
b = Builder(Image.new('RGBA', (8, 8)), Transform(), Group('g', pb))
ims = [Image.new('RGBA', (8, 8), 'red')]
assert len(b.scaled(1, (0, 0, 4, 4), ims)) == 1
"""),
dict(id='c31-subclass-prims', property='C31',
  edits=[(S, '''all_subclasses(BasePoint) | all_subclasses(Vector):''', '''all_subclasses(BasePoint):''')],
  needs='saved data with a handle between two points', breaks='it cannot be loaded',
  demo=STUB + STD + """
from x7.geom.testing import *
from x7.testing import support
assert 'VectorRelative' in PicklerExtensionGeom(None).methods()
"""),
dict(id='c31-xy-or', property='C31',
  edits=[(S, '''almostEqualFloat(first.y, second.y, places, delta)''', '''almostEqualFloat(first.y, second.y, places, delta) if almost_x is True else True''')],
  needs='points that differ in both axes', breaks='the message names only one axis',
  demo=STUB + STD + """
from x7.geom.testing import *
class T(TestCaseGeomExtended):
    def runTest(self): pass
m = ExtendedMatcherPoint(T())
r = m.almost_equal(Point(0, 0), Point(1, 1), None, None)
assert 'x:' in r and 'y:' in r, r
"""),
dict(id='c09-fit-aspect-shared', property='C09',
  edits=[(T, '''            w_extra = target.width - start.width*scale
''', '''            w_extra = target.width - start.height*scale
''')],
  needs='a box that is not square fitted with its aspect kept', breaks='the fitted box is off centre',
  demo=STD + """
t = Transform().scale_bbox(BBox(0, 0, 4, 2), BBox(0, 0, 8, 8), True)
bb = BBox(0, 0, 4, 2).transformed(t)
assert bb == BBox(0, 2, 8, 6), bb
"""),
dict(id='c09-about-relative', property='C09',
  edits=[(T, '''        xform = Transform().translate(*-center).rotate(angle).translate(*center)
        self._mat.pre_dot_eq(xform._mat.ndmat)
''', '''        xform = Transform().translate(*-center).rotate(angle % 180).translate(*center)
        self._mat.pre_dot_eq(xform._mat.ndmat)
''')],
  needs='a turn by 180 degrees or more about a point', breaks='half a turn is lost',
  demo=STD + """
t = Transform().rotate_about(180, Point(1, 1))
assert t.transform_pt(Point(2, 2)).close(Point(0, 0), 1e-9)
"""),
dict(id='c10-about-inverse', property='C10',
  edits=[(T, '''        self._mat.pre_dot_eq(xform._mat.ndmat)
        self._inverse = None
        return self
''', '''        self._mat.pre_dot_eq(xform._mat.ndmat)
        if self._inverse is not None:
            self._inverse = np.dot(xform.inverse, self._inverse)
        return self
''')],
  needs='rotating about a point after something was untransformed', breaks='the inverse is built on the wrong side',
  demo=STD + """
t = Transform().translate(5, 0); t.untransform(0, 0)
t.rotate_about(30, Point(1, 1))
p = t.untransform_pt(t.transform_pt(Point(3, 4)))
assert p.close(Point(3, 4), 1e-9), p
"""),
dict(id='c22-elem-any-first', property='C22',
  edits=[(M, '''        if isinstance(shape_kind, PenBrush):
            penbrush = shape_kind
        else:
''', '''        if isinstance(shape_kind, PenBrush):
            penbrush = shape_kind
        else:
            self.default_shape_kind = shape_kind or self.default_shape_kind
''')],
  needs='one shape added to a builder with a kind of its own, then another without', breaks='the second shape gets the kind of the first',
  demo=STD + """
b = GroupBuilder('b', PensByShape.make(False))
b.rect('a', Point(0, 0), Point(1, 1), 'filled')
c = b.rect('c', Point(0, 0), Point(1, 1))
assert not c.penbrush.filled
"""),
dict(id='c22-multi-refused', property='C22',
  edits=[(T, '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat.post_dot_eq(transmat.ndmat)
        self._inverse = None
        return self
''', '''        transmat = transmat._mat if isinstance(transmat, Transform) else transmat
        self._mat, mat = Matrix(), self._mat
        mat.post_dot_eq(transmat.ndmat)
        self._mat = mat
        self._inverse = None
        return self
''')],
  needs='composing with something that is no map', breaks='the transform is the identity afterwards',
  demo=STD + """
t = Transform().translate(1, 2)
try: t.compose(None)
except AttributeError: pass
assert t.transform(0, 0) == (1, 2)
"""),
]
