"""C05: points and vectors form an affine space, whatever kind of point or vector is used."""
from specs.prelude import *
import math


def coords(p):
    x, y = p
    return x, y


def case_point_plus_vector(p=POINTS, v=VECTORS):
    a, u = point_of(p, 'p'), vector_of(v, 'v')
    (x, y), (dx, dy) = coords(a), coords(u)
    q = a + u
    check(isinstance(q, Point), 'P+V is a plain point')
    same(q.xy(), (x + dx, y + dy), 'P+V adds coordinates')
    r = u + a
    check(isinstance(r, Point), 'V+P is a plain point')
    same(r.xy(), (x + dx, y + dy), 'V+P adds coordinates')
    d = a - u
    check(isinstance(d, Point), 'P-V is a plain point')
    same(d.xy(), (x - dx, y - dy), 'P-V subtracts coordinates')
    same(((a + u) - u).xy(), (x, y), '(P+V)-V is P')
    same(((a + u) - a).xy(), (dx, dy), '(P+V)-P is V')


def case_point_minus_point(p=POINTS, q=POINTS):
    a, b = point_of(p, 'p'), point_of(q, 'q')
    (x, y), (ox, oy) = coords(a), coords(b)
    d = a - b
    check(isinstance(d, Vector), 'P-Q is a vector')
    same(d.xy(), (x - ox, y - oy), 'P-Q subtracts coordinates')
    same((b + d).xy(), (x, y), 'Q+(P-Q) is P')
    same((-d).xy(), (b - a).xy(), '-(P-Q) is Q-P')
    m = a.mid(b)
    check(isinstance(m, Point), 'mid is a plain point')
    same(m.xy(), ((x + ox) / 2, (y + oy) / 2), 'mid is halfway')
    same(m.xy(), b.mid(a).xy(), 'mid is symmetric')
    check(raises(TypeError, lambda: a + b), 'P+Q is refused')


COINCIDENT = {
    'point': lambda x, y: Point(x, y),
    'named': lambda x, y: Point(x, y, 'n'),
    'named too': lambda x, y: Point(x, y, 'm'),
    'relative': lambda x, y: PointRelative(1, 2, Point(x - 1, y - 2)),
    'relative to another': lambda x, y: PointRelative(-4, 0, Point(x + 4, y)),
    'calculated': lambda x, y: PointCalc(PointRelative(2, 4, Point(x - 1, y - 2)), 0.5),
}


def case_coincident(one=tuple(COINCIDENT), other=tuple(COINCIDENT), at=('anywhere', 'origin')):
    """two points at one place, however each is given, differ by nothing"""
    x, y = (real('x'), real('y')) if at == 'anywhere' else (0, 0)
    a, b = COINCIDENT[one](x, y), COINCIDENT[other](x, y)
    v = VectorRelative(a, b)
    for u, what in ((a - b, 'difference'), (v, 'live difference'), (v.fixed(), 'fixed difference'), (-v, 'negative'), (v + v, 'sum'), (v * 3, 'multiple')):
        check(not u, 'the %s is zero' % what)
        same(u.xy(), (0, 0), 'the %s has no length' % what)
    same(a.mid(b).xy(), (x, y), 'half way is the same place')
    same((a + v).xy(), (x, y), 'going nowhere')
    same((b - v).xy(), (x, y), 'coming from nowhere')
    check(a.close(b) and b.close(a), 'they are close')
    same(v.dot(v), 0, 'no length')
    same(v.length(), 0, 'no length')
    w = Vector(real('w.x'), real('w.y'))
    same((w + v).xy(), w.xy(), 'adds nothing')
    same((w - v).xy(), w.xy(), 'takes nothing')
    same(v.dot(w), 0, 'no part along')
    same(v.cross(w), 0, 'no area')


ROUNDED = {
    'Point': lambda: Point(real('x'), real('y')),
    'named': lambda: Point(real('x'), real('y'), 'n'),
    'whole': lambda: Point(integer('x'), integer('y'), 'n'),
    'PointRelative': lambda: PointRelative(real('x'), real('y'), Point(real('b.x'), real('b.y'), 'b')),
    'named relative': lambda: PointRelative(real('x'), real('y'), Point(real('b.x'), real('b.y')), 'r'),
    'PointCalc': lambda: PointCalc(PointRelative(real('x'), real('y'), Point(real('b.x'), real('b.y'))), real('k')),
}


def case_round_is_round_of_fixed(kind=tuple(ROUNDED), n=('none', 0, 2)):
    """rounding what is computed is rounding where it is, name and all"""
    p = ROUNDED[kind]()
    f = p.fixed()
    if n == 'none':
        a, b, c = round(p), round(f), None
    else:
        a, b, c = round(p, n), round(f, n), p.round(n)
    check(type(a) is Point, 'a plain point')
    same(a.xy(), b.xy(), 'the same place')
    for q in (a,) + ((c,) if c is not None else ()):
        same(q.name, p.name if type(p) is Point else b.name, 'the same name')
        same(q.xy(), a.xy(), 'the same place')


def case_chasles(p=POINTS, q=POINTS, r=('Point', 'PointRelative')):
    a, b, c = point_of(p, 'p'), point_of(q, 'q'), point_of(r, 'r')
    same(((a - b) + (b - c)).xy(), (a - c).xy(), '(P-Q)+(Q-R) is P-R')


def case_vectors(u=VECTORS, v=VECTORS):
    a, b = vector_of(u, 'u'), vector_of(v, 'v')
    (x, y), (ox, oy) = coords(a), coords(b)
    s = a + b
    check(isinstance(s, Vector), 'U+V is a vector')
    same(s.xy(), (x + ox, y + oy), 'U+V adds')
    same((b + a).xy(), s.xy(), 'U+V commutes')
    d = a - b
    check(isinstance(d, Vector), 'U-V is a vector')
    same(d.xy(), (x - ox, y - oy), 'U-V subtracts')
    same((-a).xy(), (-x, -y), '-U negates')
    k = real('k')
    for w, t in ((a * k, 'U*k'), (k * a, 'k*U')):
        check(isinstance(w, Vector), t + ' is a vector')
        same(w.xy(), (k * x, k * y), t + ' scales')
    n = nonzero('n')
    same((a / n).xy(), (x / n, y / n), 'U/k divides')
    same(((a / n) * n).xy(), (x, y), '(U/k)*k is U')
    same(a.dot(b), x * ox + y * oy, 'dot product')
    same(a.cross(b), x * oy - y * ox, 'cross product')
    same(a.dot(b), b.dot(a), 'dot is symmetric')
    same(a.cross(b), -b.cross(a), 'cross is antisymmetric')
    same(a.cross(a), 0, 'cross with itself is zero')
    same(a.length() * a.length(), x * x + y * y, 'length squared')
    same(a.normal().xy(), (y, -x), 'normal is 90 degrees clockwise')
    same(a.dot(a.normal()), 0, 'normal is perpendicular')
    same((a.x, a.y), (x, y), 'x and y are the iterated coordinates')
    same(a.xy(), (x, y), 'xy() is the iterated coordinates')
    same(list(a), [x, y], 'iteration yields both coordinates')
    same(a.p.xy(), (x, y), '.p is the point at this offset')
    check(isinstance(a.p, Point), '.p is a point')
    same(bool(a), x != 0 or y != 0, 'a vector is false exactly when it is zero')


def case_vector_linear(v=VECTORS):
    a, b = vector_of(v, 'u'), vec('v')
    k, m = real('k m')
    same(((a + b) * k).xy(), (a * k + b * k).xy(), 'k(U+V) is kU+kV')
    same((a * (k + m)).xy(), (a * k + a * m).xy(), '(k+m)U is kU+mU')
    same(((a * k) * m).xy(), (a * (k * m)).xy(), '(kU)m is (km)U')
    same((a - a).xy(), (0, 0), 'U-U is zero')
    same((a + -b).xy(), (a - b).xy(), 'U+(-V) is U-V')
    same((a * k).cross(b), k * a.cross(b), 'cross is linear')
    same((a * k).dot(b), k * a.dot(b), 'dot is linear')


def case_rotate(v=VECTORS):
    a = vector_of(v, 'u')
    x, y = a.xy()
    q = angle('q')
    c, s = math.cos(math.radians(q)), math.sin(math.radians(q))
    r = a.rotate(q)
    same(r.xy(), (c * x - s * y, s * x + c * y), 'rotate is counterclockwise')
    same(r.dot(r), x * x + y * y, 'rotate keeps the length')
    same(r.rotate(-q).xy(), (x, y), 'rotate back')
    same(a.rotate(90).xy(), (-y, x), 'quarter turn')
    same(a.rotate(-90).xy(), a.normal().xy(), 'normal is the clockwise quarter turn')
    same(a.rotate(180).xy(), (-x, -y), 'half turn')
    same(a.rotate(0).xy(), (x, y), 'no turn')
    same(a.rotate(q).rotate(angle('w')).xy(), a.rotate(q + angle('w')).xy(), 'rotations add up')


def case_unit(v=VECTORS):
    a = vector_of(v, 'u')
    x, y = a.xy()
    assume(x != 0 or y != 0)
    u = a.unit()
    n = math.hypot(x, y)
    same(a.length(), n, 'length')
    same((u * n).xy(), (x, y), 'unit keeps the direction')
    same(u.length(), 1, 'unit has length one')
    same((a * 3).unit().xy(), u.xy(), 'unit ignores the length')
    same((a * -2).unit().xy(), (-u).xy(), 'unit of the opposite')


def case_unit_zero():
    check(raises(Exception, Vector(0, 0).unit), 'unit of the zero vector is refused')
    p = pt('p')
    check(raises(Exception, VectorRelative(p, p).unit), 'unit of a zero difference is refused')


def case_angle(v=VECTORS):
    a = vector_of(v, 'u')
    x, y = a.xy()
    same(math.radians(a.angle()), math.atan2(y, x), 'angle is measured from the x axis, in degrees')
    assume(x != 0 or y != 0)
    same((Vector(a.length(), 0).rotate(a.angle())).xy(), (x, y), 'turning the x axis by the angle gives the vector')


def case_close(p=POINTS):
    a = point_of(p, 'p')
    check(a.close(a.fixed()), 'a point is close to itself')
    b = pt('q')
    d = (a - b).length()
    same(a.close(b, 2), d < 2, 'points are close exactly when their distance is below the limit')
    same(a.close(b), d < 1e-11, 'default limit')
    same(a.close(b, 2), b.close(a, 2), 'close is symmetric')
    u, v = vec('u'), vec('v')
    same(u.close(v, 3), (u - v).length() < 3, 'vectors are close exactly when their difference is short')
    same(u.close(v), (u - v).length() < 1e-11, 'default limit for vectors')


def case_control_point_close():
    a, b = cp('a'), cp('b')
    lim = pos('lim')
    same(a.close(b, lim), a.kind == b.kind and a.c.close(b.c, lim) and a.dl.close(b.dl, lim) and a.dr.close(b.dr, lim),
         'control points are close exactly when kind, centre and both handles are')


def case_accessors(p=POINTS):
    a = point_of(p, 'p')
    x, y = a.xy()
    same((a.x, a.y), (x, y), 'x and y are the coordinates')
    same(list(a), [x, y], 'iteration yields both coordinates')
    same(a.v.xy(), (x, y), '.v is the offset from the origin')
    check(isinstance(a.v, Vector), '.v is a vector')
    same((-a).xy(), (-x, -y), '-P negates both coordinates')
    same(a.fixed().xy(), (x, y), 'fixed() keeps the coordinates')
    same(a.copy().xy(), (x, y), 'copy() keeps the coordinates')
    f = a.fixed()
    check(type(f) is Point, 'fixed() is a plain point')


def case_round(p=POINTS):
    a = point_of(p, 'p')
    x, y = a.xy()
    for n in (0, 2):
        same(a.round(n).xy(), (round(x, n), round(y, n)), 'round(%d) rounds both coordinates' % n)
        same(round(a, n).xy(), (round(x, n), round(y, n)), 'round(p, %d) rounds both coordinates' % n)
    check(isinstance(a.round(1), Point), 'round gives a plain point')
    u = vec('u')
    for n in (0, 2):
        same(u.round(n).xy(), (round(u.x, n), round(u.y, n)), 'vector round(%d) rounds both' % n)
        same(round(u, n).xy(), (round(u.x, n), round(u.y, n)), 'round(vector, %d) rounds both' % n)


def case_illegal(p=POINTS, v=VECTORS):
    """operations outside the affine space are refused with TypeError, in both orders"""
    a, b, u = point_of(p, 'p'), pt('q'), vector_of(v, 'u')
    check(raises(TypeError, lambda: a + b), 'P+P')
    check(raises(TypeError, lambda: b + a), 'P+P, swapped')
    check(raises(TypeError, lambda: u - a), 'V-P')
    check(raises(TypeError, lambda: a * 2), 'P*k')
    check(raises(TypeError, lambda: 2 * a), 'k*P')
    check(raises(TypeError, lambda: a / 2), 'P/k')
    check(raises(TypeError, lambda: a + 1), 'P+k')
    check(raises(TypeError, lambda: 1 + a), 'k+P')
    check(raises(TypeError, lambda: u + 1), 'V+k')
    check(raises(TypeError, lambda: u - 1), 'V-k')
    check(raises(TypeError, lambda: a + (1, 2)), 'P+tuple')
    check(raises(TypeError, lambda: u + (1, 2)), 'V+tuple')


def case_polygon_area(n=(3, 4, 5)):
    pts = [pt('p%d' % i) for i in range(n)]
    area = polygon_area(pts)
    want = 0
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        want = want + (a - pts[0]).cross(b - pts[0])
    same(area, want / 2, 'signed area is half the sum of the fan triangles')
    same(polygon_area([q + vec('v') for q in pts]), area, 'area does not depend on position')
    same(polygon_area(pts[1:] + pts[:1]), area, 'area does not depend on the starting corner')
    same(polygon_area(pts[::-1]), -area, 'reversing the polygon flips the sign')


def case_polygon_area_ccw():
    w, h = pos('w h')
    same(polygon_area([Point(0, 0), Point(w, 0), Point(w, h), Point(0, h)]), w * h, 'a counterclockwise rectangle has positive area')
    same(polygon_area([PointRelative(0, 0, Point(1, 2)), Point(1 + w, 2), Point(1 + w, 2 + h), Point(1, 2 + h)]), w * h,
         'works for any kind of point')


def case_vector_defaults():
    same(Vector().xy(), (0, 0), 'the default vector is zero')
    check(not Vector(), 'the default vector is false')


def case_parse():
    a, b = pt('a'), point_of('PointRelative', 'b')
    x, y, u, v = real('x y u v')
    same(BasePoint.parse([x, y, u, v]), [(x, y), (u, v)], 'numbers pair up')
    out = BasePoint.parse([a, (x, y), u, v, b])
    check(len(out) == 4, 'one entry per point')
    check(identical(out[0], a), "points stay themselves")
    same(out[1], (x, y), 'tuples stay')
    same(out[2], (u, v), 'numbers pair up between points')
    check(identical(out[3], b), "points stay themselves")
    same(BasePoint.parse([(x, y), (u, v, 'a')], True), [(x, y), (u, v, 'a')], 'three-tuples only on request')
    check(raises(ValueError, BasePoint.parse, [(x, y, u)]), 'three-tuples are refused')
    check(raises(Exception, BasePoint.parse, [(x,)]), 'one-tuples are refused')
    check(raises(ValueError, BasePoint.parse, [(x, y, u, v)], True), 'four-tuples are refused')
    check(raises(ValueError, BasePoint.parse, [x, y, u]), 'an odd number of numbers is refused')
    check(raises(ValueError, BasePoint.parse, [x, a]), 'a number followed by a point is refused')
    check(raises(ValueError, BasePoint.parse, ['x']), 'text is refused')
    same(BasePoint.parse([]), [], 'nothing gives nothing')
    same(BasePoint.parse(iter([x, y])), [(x, y)], 'any iterable will do')


# ---------------------------------------------------------------------- operands that hang together
def family():
    """points and differences built upon one another"""
    b = pt('b')
    r = PointRelative(real('rx'), real('ry'), b)
    s = PointRelative(real('sx'), real('sy'), b)
    q = PointRelative(real('qx'), real('qy'), r)
    c = PointCalc(r, real('cs'))
    pts = {'b': b, 'r': r, 's': s, 'q': q, 'c': c}
    vecs = {'r-b': VectorRelative(r, b), 'b-r': VectorRelative(b, r), 's-r': VectorRelative(s, r), 'q-c': VectorRelative(q, c), 'b-b': VectorRelative(b, b)}
    return pts, vecs


FAMILY = ('b', 'r', 's', 'q', 'c')
DIFFERENCES = ('r-b', 'b-r', 's-r', 'q-c', 'b-b')


def case_family_points(one=FAMILY, other=FAMILY):
    """a point and its base, two points of one base, a point and itself"""
    pts, vecs = family()
    p, q = pts[one], pts[other]
    (x, y), (ox, oy) = p.xy(), q.xy()
    d = p - q
    same(d.xy(), (x - ox, y - oy), 'P-Q subtracts coordinates, whatever they share')
    check(type(d) is Vector, 'P-Q is a plain vector')
    same((q + d).xy(), (x, y), 'Q+(P-Q) is P, whatever they share')
    same(p.mid(q).xy(), ((x + ox) / 2, (y + oy) / 2), 'mid is halfway, whatever they share')
    same(p.close(q), Point(x, y).close(Point(ox, oy)), 'close, whatever they share')
    same((p.x, p.y, q.x, q.y), (x, y, ox, oy), 'and they stay')


def case_family_vectors(one=FAMILY, v=DIFFERENCES, w=('r-b', 's-r', 'q-c')):
    """adding to a point a difference that it takes part in"""
    pts, vecs = family()
    p, u, o = pts[one], vecs[v], vecs[w]
    (x, y), (dx, dy), (ex, ey) = p.xy(), u.xy(), o.xy()
    same((p + u).xy(), (x + dx, y + dy), 'P+V adds, whatever they share')
    same((u + p).xy(), (x + dx, y + dy), 'V+P adds, whatever they share')
    same((p - u).xy(), (x - dx, y - dy), 'P-V subtracts, whatever they share')
    check(type(p + u) is Point and type(p - u) is Point, 'plain points')
    same((u + o).xy(), (dx + ex, dy + ey), 'U+V adds, whatever they share')
    same((u - o).xy(), (dx - ex, dy - ey), 'U-V subtracts, whatever they share')
    same((-u).xy(), (-dx, -dy), '-U negates')
    same((u.dot(o), u.cross(o)), (dx * ex + dy * ey, dx * ey - dy * ex), 'dot and cross, whatever they share')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c12': ('point_kinds',),
    'c27': ('shift',),
    'c16': ('translate',),
    'c06': ('relative', 'relative_chain', 'calc', 'difference'),
}
