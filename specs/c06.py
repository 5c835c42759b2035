"""C06: computed points and vectors follow their bases; fixed ones do not."""
from specs.prelude import *


def move(p):
    p.setxy(real('new.x'), real('new.y'))


def case_relative():
    b = pt('b')
    p = PointRelative(real('dx'), real('dy'), b)
    same(p.xy(), (b.x + real('dx'), b.y + real('dy')), 'a relative point is its base plus the offset')
    move(b)
    same(p.xy(), (real('new.x') + real('dx'), real('new.y') + real('dy')), 'it follows its base')
    same((p.x, p.y), p.xy(), 'x and y follow too')
    same(list(p), list(p.xy()), 'iteration follows too')
    p.dx, p.dy = real('ex'), real('ey')
    same(p.xy(), (real('new.x') + real('ex'), real('new.y') + real('ey')), 'it follows its offset')
    c = pt('c')
    p.base = c
    same(p.xy(), (c.x + real('ex'), c.y + real('ey')), 'it follows a replaced base')
    same((c.x, c.y), (real('c.x'), real('c.y')), 'the base itself stays')


def case_relative_chain():
    b = pt('b')
    p = PointRelative(real('dx'), real('dy'), b)
    q = PointRelative(real('ex'), real('ey'), p)
    r = PointRelative(real('fx'), real('fy'), q)
    move(b)
    p.dx = real('gx')
    same(r.xy(), (real('new.x') + real('gx') + real('ex') + real('fx'), real('new.y') + real('dy') + real('ey') + real('fy')),
         'chains of relative points follow the first base and every offset')


def case_calc(base=('Point', 'PointRelative')):
    b = point_of(base, 'b')
    x, y = b.xy()
    r = PointRelative(real('dx'), real('dy'), b)
    s = real('s')
    p = PointCalc(r, s)
    same(p.xy(), (x + s * real('dx'), y + s * real('dy')), 'a calculated point is its root plus the scaled offset')
    r.dx, r.dy = real('ex'), real('ey')
    same(p.xy(), (x + s * real('ex'), y + s * real('ey')), 'it follows the offset')
    if base == 'Point':
        move(b)
        same(p.xy(), (real('new.x') + s * real('ex'), real('new.y') + s * real('ey')), 'it follows the root')
    p.scale = real('s2')
    same(p.x, b.x + real('s2') * real('ex'), 'x follows the scale')
    same(p.y, b.y + real('s2') * real('ey'), 'y follows the scale')
    p.scale = 0
    same(p.xy(), b.xy(), 'scale zero is the root')
    p.scale = 1
    same(p.xy(), r.xy(), 'scale one is the relative point')


def case_calc_rebased(base=('Point', 'PointRelative'), depth=(1, 2)):
    """a relative point given another base takes everything that hangs on it along"""
    b, n = point_of(base, 'b'), pt('n')
    r = PointRelative(real('dx'), real('dy'), b)
    p = PointCalc(r, real('s'))
    top = p if depth == 1 else PointRelative(real('ex'), real('ey'), p)
    ex, ey = (0, 0) if depth == 1 else (real('ex'), real('ey'))
    v = VectorRelative(top, b)
    observe(p.xy(), top.xy(), v.xy())
    r.base = n
    same(r.xy(), (n.x + real('dx'), n.y + real('dy')), 'the relative point')
    same(top.xy(), (n.x + real('s') * real('dx') + ex, n.y + real('s') * real('dy') + ey), 'what is calculated from it')
    same((top.x, top.y), top.xy(), 'by coordinate')
    same(v.xy(), (top - b).xy(), 'and a difference')
    other = PointRelative(real('gx'), real('gy'), b)
    p.base = other
    same(p.xy(), (b.x + real('s') * real('gx'), b.y + real('s') * real('gy')), 'calculated from another relative point')


def case_calc_base():
    check(raises(Exception, lambda: PointCalc(pt('p'), 1)), 'a calculated point needs a relative point')


def case_difference(p=POINTS, q=POINTS):
    a, b = point_of(p, 'p'), point_of(q, 'q')
    v = VectorRelative(a, b)
    same(v.xy(), (a.x - b.x, a.y - b.y), 'a difference is first minus second')
    if p == 'Point':
        move(a)
    elif p == 'PointRelative':
        move(a.base)
    if q == 'PointCalc':
        b.scale = real('new.s')
    same(v.xy(), (a.x - b.x, a.y - b.y), 'it follows both points')
    same((v.x, v.y), v.xy(), 'x and y follow too')
    same(list(v), list(v.xy()), 'iteration follows too')
    same(v.p.xy(), v.xy(), '.p follows too')
    same(bool(v), a.x != b.x or a.y != b.y, 'truth follows too')
    same((pt('o') + v).xy(), (real('o.x') + a.x - b.x, real('o.y') + a.y - b.y), 'arithmetic uses the current value')
    same(v.length() * v.length(), (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y), 'length uses the current value')


def case_difference_readonly():
    v = vector_of('VectorRelative', 'v')
    check(raises(NotImplementedError, v.setxy, 1, 2), 'a difference cannot be set by coordinates')
    check(raises(NotImplementedError, v.set, vec('u')), 'a difference cannot be set from a vector')
    same(v.xy(), (real('v.p1.x') - real('v.p2.x'), real('v.p1.y') - real('v.p2.y')), 'refused changes change nothing')


def case_fromxy(base=POINTS):
    b = point_of(base, 'b')
    x, y = real('x y')
    p = PointRelative.fromxy(x, y, b)
    check(type(p) is PointRelative, 'fromxy makes a relative point')
    same(p.xy(), (x, y), 'fromxy puts the point there')
    check(identical(p.base, b), 'fromxy keeps the base')
    ox, oy = b.xy()
    if base == 'Point':
        move(b)
        same(p.xy(), (x + real('new.x') - ox, y + real('new.y') - oy), 'the point moves with its base afterwards')


def case_fixed(kind=POINTS):
    p = point_of(kind, 'p')
    f = p.fixed()
    want = p.xy()
    same(f.xy(), want, 'fixed() keeps the place')
    disturb(p)
    same(f.xy(), want, 'fixed() stays when the bases move')
    check(type(f) is Point, 'fixed() is a plain point')


def disturb(p):
    if isinstance(p, Point):
        move(p)
    elif isinstance(p, PointRelative):
        p.dx = real('mut.dx')
        move(p.base)
    else:
        p.scale = real('mut.s')
        p.base.dx = real('mut.dx')
        move(p.base.base)


def case_fixed_vector(p=POINTS):
    a, b = point_of(p, 'p'), pt('q')
    v = VectorRelative(a, b)
    f, g = v.fixed(), v.round(3)
    want = v.xy()
    disturb(a)
    move(b)
    same(f.xy(), want, 'fixed() of a difference stays')
    check(type(f) is Vector, 'fixed() of a difference is a plain vector')


DERIVED = {
    'add': lambda p, v: p + v, 'sub': lambda p, v: p - v, 'neg': lambda p, v: -p, 'mid': lambda p, v: p.mid(Point(0, 0)),
    'round': lambda p, v: p.round(1), 'v': lambda p, v: p.v, 'diff': lambda p, v: p - Point(0, 0),
}


def case_results_are_snapshots(kind=POINTS, op=tuple(DERIVED)):
    """arithmetic gives plain values that do not follow their operands"""
    p, v = point_of(kind, 'p'), vec('v')
    r = DERIVED[op](p, v)
    want = r.xy()
    disturb(p)
    v.setxy(real('mut.u'), real('mut.w'))
    same(r.xy(), want, '%s does not follow its operands' % op)


VECTOR_DERIVED = {
    'add': lambda u, v: u + v, 'sub': lambda u, v: u - v, 'neg': lambda u, v: -u, 'mul': lambda u, v: u * 2, 'rmul': lambda u, v: 2 * u,
    'div': lambda u, v: u / 2, 'normal': lambda u, v: u.normal(), 'rotate': lambda u, v: u.rotate(90), 'p': lambda u, v: u.p,
    'plus_point': lambda u, v: Point(1, 2) + u, 'minus_point': lambda u, v: Point(1, 2) - u,
}


def case_vector_results_are_snapshots(kind=VECTORS, op=tuple(VECTOR_DERIVED)):
    u, v = vector_of(kind, 'u'), vec('v')
    r = VECTOR_DERIVED[op](u, v)
    want = r.xy()
    if kind == 'Vector':
        u.setxy(real('mut.a'), real('mut.b'))
    else:
        u2 = VectorRelative(pt('z'), pt('z2'))
    v.setxy(real('mut.u'), real('mut.w'))
    same(r.xy(), want, '%s does not follow its operands' % op)


def case_difference_snapshots():
    p, q = pt('p'), pt('q')
    u = VectorRelative(p, q)
    rs = [u + vec('v'), u - vec('v'), -u, u * 2, u / 2, u.normal(), u.rotate(90), u.p, Point(1, 2) + u, u.fixed()]
    want = [r.xy() for r in rs]
    move(p)
    q.setxy(real('mut.x'), real('mut.y'))
    same([r.xy() for r in rs], want, 'results computed from a difference do not follow it')
    same(u.xy(), (real('new.x') - real('mut.x'), real('new.y') - real('mut.y')), 'the difference itself does')


def case_difference_round():
    p, q = pt('p'), pt('q')
    u = VectorRelative(p, q)
    r = u.round(2)
    same(r.xy(), (round(p.x, 2) - round(q.x, 2), round(p.y, 2) - round(q.y, 2)), 'a difference rounds its two points')
    c = u.copy()
    want = c.xy()
    same(want, u.xy(), 'a copied difference has the same value')
    move(p)
    same(c.xy(), want, 'a copied difference does not follow the original points')


def case_line_follows():
    p, q = pt('p'), pt('q')
    l = Line(p, VectorRelative(q, p))
    move(p)
    same(l.p1.xy(), p.xy(), 'a line follows its origin')
    same(l.p2.xy(), q.xy(), 'a line with a live direction ends at the live point')
    same(l.midpoint.xy(), p.mid(q).xy(), 'midpoint follows')


def case_curve_follows():
    """a curve over live points draws where the points are now; its copy where they were"""
    b = pt('b')
    c = ControlPoint(PointRelative(real('dx'), real('dy'), b), VectorRelative(pt('l'), b), vec('dr'))
    e = ElemCurve('c', PenBrush('red'), [c, cp('z')], False, tf('xf'))
    f = e.copy()
    frozen = observe(f.control_paths(dctx('d')))
    same(observe(f.control_paths(dctx('d'))), observe(e.control_paths(dctx('d'))), 'the copy is where the curve is')
    move(b)
    want = ElemCurve('c', PenBrush('red'), [
        ControlPoint(Point(real('new.x') + real('dx'), real('new.y') + real('dy')),
                     Vector(real('l.x') - real('new.x'), real('l.y') - real('new.y')), vec('dr')), cp('z')], False, tf('xf'))
    same(observe(e.control_paths(dctx('d'))[0].points[0].c), observe(want.control_paths(dctx('d'))[0].points[0].c), 'centre follows')
    same(observe(e.control_paths(dctx('d'))[0].points[0].dl), observe(want.control_paths(dctx('d'))[0].points[0].dl), 'handle follows')
    same(observe(f.control_paths(dctx('d'))), frozen, 'the copy does not follow')


def case_shape_does_not_follow(kind=('ElemRectangle', 'ElemEllipse', 'ElemRectangleRounded')):
    b = pt('b')
    p = PointRelative(real('dx'), real('dy'), b)
    if kind == 'ElemRectangle':
        e = ElemRectangle('e', PenBrush('red'), p, pt('q'))
    elif kind == 'ElemEllipse':
        e = ElemEllipse('e', PenBrush('red'), p, pt('q'))
    else:
        e = ElemRectangleRounded('e', PenBrush('red'), p, pt('q'), real('r'))
    want = p.xy()
    same(e.p1.xy(), want, 'corner is at the given point')
    move(b)
    same(e.p1.xy(), want, 'corner does not follow')


def case_shape_corners_are_snapshots(kind=('ElemRectangle', 'ElemEllipse', 'ElemRectangleRounded'), p=POINTS + ('named',), which=(1, 2)):
    """corners do not follow the points they were given as, and the points do not follow the corners"""
    a, b = (Point(real('a.x'), real('a.y'), 'label') if p == 'named' else point_of(p, 'a')), point_of('Point', 'b')
    cls = {'ElemRectangle': ElemRectangle, 'ElemEllipse': ElemEllipse, 'ElemRectangleRounded': ElemRectangleRounded}[kind]
    kw = {'radius': 3} if kind == 'ElemRectangleRounded' else {}
    e = cls('e', PenBrush('red'), p1=a if which == 1 else b, p2=b if which == 1 else a, **kw)
    corner = e.p1 if which == 1 else e.p2
    want, given = a.xy(), observe(a, b)
    for other in ('x', 'y'):
        same(corner.xy(), want, 'at the given point')
    corner.setxy(real('cx'), real('cy'))
    same(observe(a, b), given, 'moving a corner does not move the point')
    corner.setxy(*want)
    root = a
    while hasattr(root, 'base'):
        root = root.base
    root.setxy(real('nx'), real('ny'))
    b.setxy(real('mx'), real('my'))
    same(corner.xy(), want, 'moving the point does not move the corner')
    same((e.p2 if which == 1 else e.p1).xy(), (real('b.x'), real('b.y')), 'nor the other one')


def case_control_point_handles():
    c = cp('c')
    same(c.l.xy(), (c.c.x + c.dl.x, c.c.y + c.dl.y), 'left handle is centre plus left offset')
    same(c.r.xy(), (c.c.x + c.dr.x, c.c.y + c.dr.y), 'right handle is centre plus right offset')
    move(c.c)
    c.dl.setxy(real('u'), real('v'))
    same(c.l.xy(), (real('new.x') + real('u'), real('new.y') + real('v')), 'left handle follows centre and offset')
    same(c.r.xy(), (real('new.x') + c.dr.x, real('new.y') + c.dr.y), 'right handle follows the centre')


def case_named_points():
    """points registered in a group are the live points"""
    g = Group('g', PenBrush('red'))
    p = pt('p')
    q = g.add_pt('a', p)
    check(identical(q, p), 'add_pt gives the point back')
    check(identical(g.lookup_pt('a'), p), 'lookup_pt finds the very point')
    r = PointRelative(1, 2, g.lookup_pt('a'))
    g.lookup_pt('a').setxy(real('x'), real('y'))
    same(r.xy(), (real('x') + 1, real('y') + 2), 'moving the named point moves what is built on it')


ROUND = {
    'vector': lambda p, q: VectorRelative(p, q).round(1),
    'vector by round()': lambda p, q: round(VectorRelative(p, q), 2),
    'vector fixed': lambda p, q: VectorRelative(p, q).fixed(),
    'point': lambda p, q: PointRelative(1, 2, p).round(1),
    'point by round()': lambda p, q: round(p, 0),
    'control point': lambda p, q: ControlPoint(PointRelative(0, 0, p), VectorRelative(p, q), VectorRelative(q, p)).round(2),
    'control point fixed': lambda p, q: ControlPoint(PointRelative(0, 0, p), VectorRelative(p, q), VectorRelative(q, p)).fixed(),
    'sum with nothing': lambda p, q: PointRelative(1, 2, p) + Vector(0, 0),
    'difference with nothing': lambda p, q: p - Vector(),
    'vector sum with nothing': lambda p, q: VectorRelative(p, q) + Vector(),
    'vector times one': lambda p, q: VectorRelative(p, q) * 1,
    'vector by one': lambda p, q: VectorRelative(p, q) / 1,
    'vector turned by nothing': lambda p, q: (VectorRelative(p, q).rotate(0), VectorRelative(p, q).rotate(360)),
    'mid with itself': lambda p, q: PointRelative(0, 0, p).mid(PointRelative(0, 0, p)),
    'moved by the identity': lambda p, q: (Transform().transform_pt(p), Transform().transform_pts([p, PointRelative(0, 0, q)], True),
                                           Transform().untransform_pt(p)),
    'box': lambda p, q: (BBox(p, q), round(BBox(p, q), 1), BBox(p, q).p1, BBox(p, p).center),
    'line': lambda p, q: (Line(p, q - p).midpoint, Line(p, VectorRelative(q, p)).p2, Line(p, q - p).closest(q), Line(p, q - p).segment_bbox()),
    'unit': lambda p, q: VectorRelative(PointRelative(1, 0, p), p).unit(),
    'split': lambda p, q: (bez_split(ControlPoint(p, Vector(1, 1), Vector(1, 1)), ControlPoint(q, Vector(1, 1), Vector(1, 1)), 0)[1],),
}


def case_nothing_to_do(op=tuple(ROUND), at=((3, 4), (0, 0), (1.5, -2.25)), to=((0, 0), (3, 4))):
    """a result is a snapshot also where the operation has nothing to do"""
    p, q = Point(*at), Point(*to)
    if op in ('line',) and at == to:
        return
    r = ROUND[op](p, q)
    want = observe(r)
    p.setxy(real('mx'), real('my'))
    q.setxy(real('nx'), real('ny'))
    same(observe(r), want, '%s: the result does not follow' % op)


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c17': ('point_follows',),
    'c05': ('coincident', 'round_is_round_of_fixed', 'point_plus_vector'),
    'c18': ('target_moves', 'target_unchanged', 'target_follows'),
    'c27': ('ends',),
}
