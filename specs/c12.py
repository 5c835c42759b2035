"""C12: a transformer treats one point, a list of points and a flat list alike, whatever kind of transformer it is."""
from specs.prelude import *
from x7.geom.vec_field import VectorField, Mesh
import math
import numpy as np


def warp(x, y):
    return ufun('wx')(x, y), ufun('wy')(x, y)


class Pairs(Transformer):
    """a client transformer returning a list of pairs"""
    LINEAR = False

    def transform_np_pts(self, np_pts):
        return [warp(x, y) for x, y, _ in np_pts.T]


class Triples(Transformer):
    """a client transformer returning a list of triples"""
    LINEAR = False

    def transform_np_pts(self, np_pts):
        return [warp(x, y) + (1,) for x, y, _ in np_pts.T]


class Rows(Transformer):
    """a client transformer returning an array of homogeneous rows"""

    def transform_np_pts(self, np_pts):
        return np.array([warp(x, y) + (1,) for x, y, _ in np_pts.T])


class Flat(Transformer):
    """a client transformer returning an array of (x, y) rows"""

    def transform_np_pts(self, np_pts):
        return np.array([warp(x, y) for x, y, _ in np_pts.T])


def mesh(k, steps=2):
    x, y = real(k + '.x'), real(k + '.y')
    return Mesh(BBox((x, y, x + pos(k + '.w'), y + pos(k + '.h'))), steps)


def field(k, steps=2):
    names = ['%s.v%d%d' % (k, i, j) for i in range(steps) for j in range(steps)]
    vx = np.array([[real('%s.vx%d%d' % (k, i, j)) for j in range(steps)] for i in range(steps)])
    vy = np.array([[real('%s.vy%d%d' % (k, i, j)) for j in range(steps)] for i in range(steps)])
    return VectorField(mesh(k, steps), vx, vy)


MAKERS = {
    'Transform': lambda: tf('t'),
    'Pairs': lambda: Pairs(),
    'Triples': lambda: Triples(),
    'Rows': lambda: Rows(),
    'Flat': lambda: Flat(),
    'VectorField': lambda: field('f'),
}
KINDS = tuple(MAKERS)


def xy_of(i):
    return real('x%d' % i), real('y%d' % i)


def case_single(kind=KINDS, p=POINTS):
    t, a = MAKERS[kind](), point_of(p, 'p')
    x, y = a.xy()
    r = t.transform(x, y)
    check(len(r) == 2, 'transform gives two numbers')
    q = t.transform_pt(a)
    check(type(q) is Point, 'transform_pt gives a Point')
    same(q.xy(), r, 'a point is mapped like its coordinates')
    same(t.transform_pt(a, as_pt=False), r, 'as a pair: the same coordinates')
    same(t.transform_pt(a, False), r, 'as a pair by position: the same coordinates')
    check(not isinstance(t.transform_pt(a, False), BasePoint), 'as a pair: not a point')


def case_list(kind=KINDS, n=(1, 2, 3, 5, 24), form=('pairs', 'points', 'lists')):
    t = MAKERS[kind]()
    xys = [xy_of(i) for i in range(n)]
    pts = [Point(x, y) for x, y in xys] if form == 'points' else xys if form == 'pairs' else [[x, y] for x, y in xys]
    want = [t.transform(x, y) for x, y in xys]
    out = t.transform_pts(pts)
    check(len(out) == n, 'a list keeps its length')
    if form == 'points':
        check(all(type(q) is Point for q in out), 'points come out as points')
        same([q.xy() for q in out], want, 'each point of a list is mapped like a single one, in order')
    else:
        check(all(type(q) is tuple and len(q) == 2 for q in out), 'pairs come out as pairs')
        same(out, want, 'each pair of a list is mapped like a single one, in order')
    flat = t.transform_pts(pts, flatten=True)
    check(len(flat) == 2 * n, 'a flat list has two numbers per point')
    same(flat, [v for q in want for v in q], 'a flat list has the same coordinates in the same order')
    same(t.transform_pts(pts, True), flat, 'flatten by position')


def case_point_kinds(kind=KINDS, p=POINTS):
    t, a, b = MAKERS[kind](), point_of(p, 'p'), point_of('PointRelative', 'q')
    same([q.xy() for q in t.transform_pts([a, b])], [t.transform(*a.xy()), t.transform(*b.xy())], 'lists of any points')
    check(all(type(q) is Point for q in t.transform_pts([a, b])), 'any points come out as plain points')


def case_mixed_list(kind=KINDS, first=('point', 'pair'), flatten=(True, False)):
    """points and pairs in one list are each mapped, in order"""
    t = MAKERS[kind]()
    xys = [xy_of(i) for i in range(4)]
    mixed = [Point(*xys[i]) if (i % 2 == 0) == (first == 'point') else xys[i] for i in range(4)]
    want = [t.transform(*xy) for xy in xys]
    out = t.transform_pts(mixed, flatten)
    if flatten:
        same(out, [v for q in want for v in q], 'every one of a mixed list, flat')
        return
    same(len(out), 4, 'every one of a mixed list')
    same([tuple(q) for q in out], want, 'every one of a mixed list is mapped, in order')
    m = Transformer.points_to_np_points(mixed)
    same(m.shape, (3, 4), 'every one of a mixed list is a column')


def case_whole_numbers(kind=KINDS, form=('int, real', 'real, int', 'int, int'), where=('alone', 'point', 'pair', 'list', 'second')):
    """whole numbers and fractions mixed: nothing is rounded"""
    t = MAKERS[kind]()
    a, b = real('x0'), real('y0')
    f = {'int, real': (3, b), 'real, int': (a, 4), 'int, int': (3, 4)}[form]
    g = {'int, real': (Fraction3(), b), 'real, int': (a, Fraction4()), 'int, int': (Fraction3(), Fraction4())}[form]
    want = t.transform(*g)
    if where == 'alone':
        same(t.transform(*f), want, 'alone')
        m = Transformer.xy_to_np_point(*f)
        same((m[0][0], m[1][0], m[2][0]), g + (1,), 'as a numpy point')
    elif where == 'point':
        same(t.transform_pt(Point(*f)).xy(), want, 'as a point')
    elif where == 'pair':
        same(t.transform_pts([f])[0], want, 'as a pair')
    elif where == 'list':
        same(t.transform_pts([f, (real('x1'), real('y1'))])[0], want, 'first of a list')
    else:
        same(t.transform_pts([(1, 2), f])[1], want, 'after whole numbers')


def Fraction3():
    return 1.5 + 1.5


def Fraction4():
    return 3.5 + 0.5


def case_tuple_argument(kind=KINDS):
    t = MAKERS[kind]()
    xys = (xy_of(0), xy_of(1))
    same(t.transform_pts(xys), [t.transform(*xys[0]), t.transform(*xys[1])], 'a tuple of pairs works like a list')


def case_independence(kind=KINDS):
    """the image of a point does not depend on the other points of the list"""
    t = MAKERS[kind]()
    a, b, c = xy_of(0), xy_of(1), xy_of(2)
    x, y, z = t.transform_pts([a, b, c])
    same((z, x), tuple(t.transform_pts([c, a])), 'reordering the list reorders the result')
    same([x], t.transform_pts([a]), 'a list of one')
    same(t.transform_pts([a, a]), [x, x], 'a repeated point is mapped alike')


def case_control_point(kind=KINDS, cpkind=('sharp', 'corner')):
    """a control point is mapped through its three points"""
    t, c = MAKERS[kind](), cp('c', cpkind)
    d = c.transform(t)
    same(d.c.xy(), t.transform(*c.c.xy()), 'the centre is mapped')
    same(d.l.xy(), t.transform(*c.l.xy()), 'the left handle end is mapped')
    same(d.r.xy(), t.transform(*c.r.xy()), 'the right handle end is mapped')
    same(d.kind, cpkind, 'the kind is kept')


def case_control_point_linear(cpkind=('smooth', 'very-smooth', 'sharp')):
    """linear transforms map every kind of control point exactly"""
    for t in [tf('t'), Rows()]:
        c = cp('c', cpkind)
        d = c.transform(t)
        same((d.c.xy(), d.l.xy(), d.r.xy()), (t.transform(*c.c.xy()), t.transform(*c.l.xy()), t.transform(*c.r.xy())), 'a linear map moves the handles exactly')
        same(d.kind, cpkind, 'the kind is kept')


def case_control_point_bent(kind=('Pairs', 'Triples', 'VectorField')):
    """a non-linear map keeps a very smooth point very smooth: opposite handles of equal length"""
    t, c = MAKERS[kind](), cp('c', 'very-smooth')
    d = c.transform(t)
    same(d.c.xy(), t.transform(*c.c.xy()), 'the centre is mapped')
    (rx, ry), (lx, ly) = d.dr.xy(), d.dl.xy()
    same((lx, ly), (-rx, -ry), 'very smooth handles stay opposite')
    l, r = t.transform(*c.l.xy()), t.transform(*c.r.xy())
    same((rx - lx, ry - ly), (r[0] - l[0], r[1] - l[1]), 'the handle ends stay as far apart as their images')


def case_control_point_smooth():
    t, c = Pairs(), cp('c', 'smooth')
    d = c.transform(t)
    same(d.c.xy(), t.transform(*c.c.xy()), 'the centre is mapped')
    same(d.dl.cross(d.dr), 0, 'smooth handles stay on one line')
    check(t.transform(*c.l.xy()) == t.transform(*c.r.xy()) or d.dl.dot(d.dr) <= 0, 'smooth handles stay on opposite sides unless they coincide')


BACK = ('shear', 'scale', 'flip', 'swap', 'turn')


def there_and_back(how):
    k, c, f = nonzero('b.k'), real('b.c'), real('b.f')
    return Transform({'shear': (1, k, c, 0, 1, f), 'scale': (k, 0, c, 0, 2, f), 'flip': (-1, 0, c, 0, 1, f), 'swap': (0, 1, c, 1, 0, f), 'turn': (0, -k, c, k, 0, f)}[how])


def case_repeated(how=BACK, form=('pairs', 'points'), which=((0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 0, 1))):
    """a place that comes twice in a list is mapped twice"""
    t = there_and_back(how)
    ps = [xy_of(i) for i in range(2)]
    given = [Point(*ps[i]) if form == 'points' else ps[i] for i in which]
    there, flat, back = t.transform_pts(given), t.transform_pts(given, True), t.untransform_pts(given)
    same((len(there), len(flat), len(back)), (len(which), 2 * len(which), len(which)), 'one for each')
    for j, i in enumerate(which):
        x, y = there[j]
        same((x, y), tuple(t.transform(*ps[i])), 'there')
        same((flat[2 * j], flat[2 * j + 1]), tuple(t.transform(*ps[i])), 'there, as numbers')
        x, y = back[j]
        same((x, y), tuple(t.untransform(*ps[i])), 'back')


def case_back(how=BACK, form=('pairs', 'points', 'mixed'), n=(1, 2, 3, 5)):
    """what a transform does, its undoing undoes: for one place and for lists of any length"""
    t = there_and_back(how)
    before = t.as_6tuple()
    ps = [xy_of(i) for i in range(n)]
    images = [t.transform(x, y) for x, y in ps]
    given = [Point(*p) if form == 'points' or (form == 'mixed' and i % 2) else p for i, p in enumerate(images)]
    kept = list(given)
    got = t.untransform_pts(given)
    check(isinstance(got, list), 'a list')
    same(len(got), n, 'as many as given')
    for i, p in enumerate(ps):
        x, y = got[i]
        same((x, y), p, 'in the order given')
        same(tuple(t.untransform(*images[i])), p, 'one place')
        q = t.untransform_pt(given[i])
        check(isinstance(q, Point), 'a point')
        same(q.xy(), p, 'one point')
        same(apply6(t, *t.untransform(*p)), p, 'the other way round')
    check(given == kept, 'the given list is not changed')
    same(t.as_6tuple(), before, 'the map is not changed')


def case_width():
    """line widths scale by the mean of the axis scales"""
    t, w, k = tf('t'), nonneg('w'), nonneg('k')
    same(t.transform_width(w) * k, t.transform_width(w * k), 'widths scale in proportion')
    same(Transform().transform_width(w), w, 'the identity keeps widths')
    check(t.transform_width(w) >= 0, 'a width stays nonnegative')
    a, b, c, d, e, f = t.as_6tuple()
    sx, sy = t.scale_vals()
    same(t.transform_width(w), w * (sx + sy) / 2, 'a width is scaled by the mean of the two scales')
    same(Transform((pos('s'), 0, c, 0, pos('s'), f)).transform_width(w), w * pos('s'), 'a uniform scale scales widths by its factor')
    same(Transform((a, b, real('m'), d, e, real('n'))).transform_width(w), t.transform_width(w), 'moving does not change widths')


def case_width_general(kind=('Rows', 'Pairs', 'Triples', 'Flat', 'VectorField')):
    t, w = MAKERS[kind](), nonneg('w')
    h = w * math.sqrt(2) / 2
    o, p = t.transform(0, 0), t.transform(h, h)
    same(t.transform_width(w), ((p[0] - o[0]) ** 2 + (p[1] - o[1]) ** 2) ** 0.5, 'a width is the length of the image of the diagonal of that length')


def case_helpers(n=(1, 2, 4, 20)):
    """the numpy forms of points"""
    xys = [xy_of(i) for i in range(n)]
    m = Transformer.points_to_np_points(xys)
    same(m.shape, (3, n), 'points become columns')
    same([(m[0][i], m[1][i], m[2][i]) for i in range(n)], [(x, y, 1) for x, y in xys], 'each column is (x, y, 1)')
    same(observe(Transformer.points_to_np_points([Point(x, y) for x, y in xys])), observe(m), 'points and pairs alike')
    one = Transformer.xy_to_np_point(*xys[0])
    same((one.shape, one[0][0], one[1][0], one[2][0]), ((3, 1), xys[0][0], xys[0][1], 1), 'a single point is one column')


# ---------------------------------------------------------------------- vector fields
def case_field_zero():
    z = mesh('m').zeros()
    x, y = xy_of(0)
    same(z.transform(x, y), (x, y), 'the zero field moves nothing')
    same(z.lookup(x, y), (0, 0), 'the zero field is zero')


def case_field_adds():
    f = field('f')
    x, y = xy_of(0)
    vx, vy = f.lookup(x, y)
    same(f.transform(x, y), (x + vx, y + vy), 'a field moves a point by its value there')


def case_field_nodes(steps=(2, 3)):
    """at a grid point the field has the value stored for it"""
    f = field('f', steps)
    for i in range(steps):
        for j in range(steps):
            x, y = f.mesh.coord_x[i], f.mesh.coord_y[j]
            same(f.lookup(x, y), (f.vx[i][j], f.vy[i][j]), 'the value at a grid point is the stored one')


def case_field_scaled():
    f, k, l = field('f'), real('k'), real('l')
    g, h = f.scaled(k), f.scaled(k, l)
    for i in range(2):
        for j in range(2):
            same((g.vx[i][j], g.vy[i][j]), (k * f.vx[i][j], k * f.vy[i][j]), 'scaling a field scales both components')
            same((h.vx[i][j], h.vy[i][j]), (k * f.vx[i][j], l * f.vy[i][j]), 'scaling a field per axis')
    same(observe(g.mesh), observe(f.mesh), 'the grid is kept')


def case_field_copy_maps_alike():
    f = field('f')
    x, y = xy_of(0)
    g = f.copy()
    same(g.transform(x, y), f.transform(x, y), 'a copy maps alike')
    same(f.copy() == f, True, 'a copy is equal')
    same(f.scaled(1).transform(x, y), f.transform(x, y), 'scaling by one changes nothing')
    same(f.scaled(0).transform(x, y), (x, y), 'scaling by nothing leaves the zero field')


def case_field_repeat():
    """asking again gives the same answer"""
    f = field('f')
    x, y = xy_of(0)
    a = f.transform(x, y)
    f.transform(*xy_of(1))
    f.lookup(*xy_of(1))
    same(f.transform(x, y), a, 'the answer does not depend on earlier questions')


def case_mesh(steps=(2, 3, 4)):
    m = mesh('m', steps)
    same((m.coord_x[0], m.coord_y[0]), (m.bbox.xl, m.bbox.yl), 'the grid starts at the low corner')
    same((m.coord_x[steps - 1], m.coord_y[steps - 1]), (m.bbox.xh, m.bbox.yh), 'the grid ends at the high corner')
    for i in range(steps - 1):
        same(m.coord_x[i + 1] - m.coord_x[i], m.bbox.width / (steps - 1), 'columns are evenly spaced')
        same(m.coord_y[i + 1] - m.coord_y[i], m.bbox.height / (steps - 1), 'rows are evenly spaced')
    same(m == mesh('m', steps), True, 'equal boxes and steps give equal grids')
    same(m == mesh('m', steps + 1), False, 'different steps give different grids')


def case_field_smoothed():
    """smoothing and normalising keep the grid and make new fields"""
    f = field('f')
    before = observe(f)
    g = f.normalized()
    same(observe(g.mesh), observe(f.mesh), 'the grid is kept')
    same(observe(f), before, 'the field itself is unchanged')
    k = g.vx[0][0] * f.vy[0][0]
    same(k, g.vy[0][0] * f.vx[0][0], 'normalising keeps directions')
    same(g.vx[0][1] * f.vx[1][0], g.vx[1][0] * f.vx[0][1], 'normalising scales all vectors alike')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c13': ('context_points', 'context_set_matrix'),
    'c28': ('transform_is_lookup',),
    'c09': ('points_match_single',),
}
