"""C27: lines and segments - ends, closest points and crossings are where geometry says."""
from specs.prelude import *
from x7.geom.geom import ParallelLineError

HOW = ('vector', 'point', 'from_pts', 'relative', 'computed')


def line(k, how='vector'):
    """a line, with the coordinates of its start and of its direction"""
    x, y, dx, dy = real(k + '.x'), real(k + '.y'), real(k + '.dx'), real(k + '.dy')
    if how == 'vector':
        return Line(Point(x, y), Vector(dx, dy)), x, y, dx, dy
    if how == 'point':
        return Line(Point(x, y), Point(x + dx, y + dy)), x, y, dx, dy
    if how == 'from_pts':
        return Line.from_pts(Point(x, y), Point(x + dx, y + dy)), x, y, dx, dy
    if how == 'relative':
        return Line(PointRelative(x, y, Point(0, 0)), VectorRelative(Point(dx + 1, dy + 2), Point(1, 2))), x, y, dx, dy
    p = PointCalc(PointRelative(2, 3, Point(x - 2, y - 3)), 1)
    return Line(p, PointRelative(dx, dy, p)), x, y, dx, dy


def case_ends(how=HOW):
    l, x, y, dx, dy = line('l', how)
    same(l.p1.xy(), (x, y), 'starts at the start')
    same(l.p2.xy(), (x + dx, y + dy), 'ends a direction further')
    same(l.midpoint.xy(), (x + dx / 2, y + dy / 2), 'the middle is half way')
    same(l.origin.xy(), (x, y), 'origin')
    same(l.direction.xy(), (dx, dy), 'direction')
    same((l.p2 - l.p1).xy(), (dx, dy), 'from end to end is the direction')


def case_follows(part=('origin', 'direction', 'base', 'both')):
    """a line follows the very point and direction it was made from"""
    o, a, b = pt('o'), pt('a'), pt('b')
    start = PointRelative(real('rx'), real('ry'), o) if part == 'base' else o
    l = Line(start, VectorRelative(a, b))
    l.p1, l.p2, l.midpoint, l.segment_bbox()
    if part in ('origin', 'base', 'both'):
        o.setxy(real('nx'), real('ny'))
    if part in ('direction', 'both'):
        a.setxy(real('mx'), real('my'))
    x, y = start.xy()
    dx, dy = a.x - b.x, a.y - b.y
    same(l.p1.xy(), (x, y), 'starts at the point')
    same(l.p2.xy(), (x + dx, y + dy), 'ends where the points lead')
    same(l.midpoint.xy(), (x + dx / 2, y + dy / 2), 'and so does the middle')
    same(l, Line(start, VectorRelative(a, b)), 'equal to one made now')
    same(sorted(l.segment_bbox().as_tuple()[::2]), sorted((x, x + dx)), 'the box around it too')


def case_shift(how=HOW, sign=(1, -1), vkind=VECTORS):
    l, x, y, dx, dy = line('l', how)
    v = vector_of(vkind, 'v')
    m = l + v if sign > 0 else l - v
    check(type(m) is Line and m is not l, 'a new line')
    same(m.origin.xy(), (x + sign * v.x, y + sign * v.y), 'shifted')
    same(m.direction.xy(), (dx, dy), 'same direction')
    same((l.origin.xy(), l.direction.xy()), ((x, y), (dx, dy)), 'the line itself stays')
    back = m - v if sign > 0 else m + v
    same((back.p1.xy(), back.p2.xy()), (l.p1.xy(), l.p2.xy()), 'and shifting back returns')


def case_box(how=HOW):
    l, x, y, dx, dy = line('l', how)
    same(l.segment_bbox(), BBox(x, y, x + dx, y + dy), 'the box of both ends')


def case_eq(how=('vector', 'point', 'from_pts')):
    l, x, y, dx, dy = line('l', how)
    check(l == Line(Point(x, y), Vector(dx, dy)), 'equal however made')
    d = nonzero('d')
    check(not l == Line(Point(x + d, y), Vector(dx, dy)), 'start x')
    check(not l == Line(Point(x, y + d), Vector(dx, dy)), 'start y')
    check(not l == Line(Point(x, y), Vector(dx + d, dy)), 'direction x')
    check(not l == Line(Point(x, y), Vector(dx, dy + d)), 'direction y')


# ---------------------------------------------------------------------- closest
def case_closest(how=HOW, pkind=POINTS):
    l, x, y, dx, dy = line('l', how)
    p = point_of(pkind, 'p')
    assume(dx * dx + dy * dy > 0)
    c = l.closest(p)
    t = ((p.x - x) * dx + (p.y - y) * dy) / (dx * dx + dy * dy)
    same(c.xy(), (x + t * dx, y + t * dy), 'the foot of the perpendicular')
    check((c.x - x) * dy - (c.y - y) * dx == 0, 'is on the line')
    check((p.x - c.x) * dx + (p.y - c.y) * dy == 0, 'and the way to it is perpendicular')


def case_closest_of_point_on_line(how=('vector', 'point')):
    l, x, y, dx, dy = line('l', how)
    assume(dx * dx + dy * dy > 0)
    t = real('t')
    same(l.closest(Point(x + t * dx, y + t * dy)).xy(), (x + t * dx, y + t * dy), 'a point on the line is its own')


def case_closest_same_line(change=('longer', 'reversed', 'start')):
    """what is closest does not depend on which part of the line is given"""
    l, x, y, dx, dy = line('l')
    assume(dx * dx + dy * dy > 0)
    k, p = pos('k'), pt('p')
    m = {'longer': lambda: Line(l.origin, l.direction * k), 'reversed': lambda: Line(l.origin, l.direction * -k),
         'start': lambda: Line(l.origin + l.direction * k, l.direction)}[change]()
    same(m.closest(p).xy(), l.closest(p).xy(), 'same point')


def case_closest_none():
    """a line without a direction has no closest point"""
    check(raises(Exception, Line(pt('o'), Vector(0, 0)).closest, pt('p')), 'refused')


PLACES = {'start': (0, 0), 'end': (1, 0), 'middle': (0.5, 0), 'before': (-1, 0), 'beside the start': (0, 1), 'beside the end': (1, -2), 'anywhere': (0.3, 0.7)}


def case_results_are_new(place=tuple(PLACES), flat=('no', 'x', 'y')):
    """points found on a line are points of their own, wherever they happen to be"""
    x, y = real('x'), real('y')
    dx, dy = (0 if flat == 'y' else 3), (0 if flat == 'x' else 4)
    l = Line(Point(x, y), Vector(dx, dy))
    t, u = PLACES[place]
    p = Point(x + t * dx - u * dy, y + t * dy + u * dx)
    m = Line(p, Vector(-dy, dx))
    was = observe((l, p, m))
    for what, r in (('closest', l.closest(p)), ('crossing', l.intersection(m)), ('crossed', m.intersection(l))):
        same(r.xy(), (x + t * dx, y + t * dy), 'the %s is there' % what)
        disjoint(r, (l, p, m), 'the %s is a point of its own' % what)
    s = l.segment_intersection(m)
    if s is not None:
        disjoint(s, (l, p, m), 'the crossing of the segments is a point of its own')
    disjoint(l.p2, (l, p, m), 'the end is a point of its own')
    disjoint(l.midpoint, (l, p, m), 'the middle is a point of its own')
    disjoint(l.segment_bbox(), (l, p, m), 'the box is its own')
    same(observe((l, p, m)), was, 'asking changes nothing')


# ---------------------------------------------------------------------- intersection
def crossing(hl='vector', hm='vector'):
    """two lines that cross somewhere"""
    l, m = line('l', hl), line('m', hm)
    assume(l[3] * m[4] - l[4] * m[3] != 0)
    return l, m


def case_intersection(hl=HOW, hm=('vector', 'point')):
    (l, x, y, dx, dy), (m, u, v, du, dv) = crossing(hl, hm)
    c = l.intersection(m)
    check(isinstance(c, BasePoint), 'a point')
    t = ((u - x) * dv - (v - y) * du) / (dx * dv - dy * du)
    same(c.xy(), (x + t * dx, y + t * dy), 'where the lines meet')
    check((c.x - x) * dy - (c.y - y) * dx == 0, 'is on the one')
    check((c.x - u) * dv - (c.y - v) * du == 0, 'and on the other')


def case_intersection_symmetric(hl=HOW, hm=('vector', 'relative')):
    (l, x, y, dx, dy), (m, u, v, du, dv) = crossing(hl, hm)
    same(l.intersection(m).xy(), m.intersection(l).xy(), 'either asks the other')
    same((l.origin.xy(), l.direction.xy(), m.origin.xy(), m.direction.xy()), ((x, y), (dx, dy), (u, v), (du, dv)), 'and stays')


def case_intersection_same_lines(change=('longer', 'reversed', 'start'), which=(0, 1)):
    (l, x, y, dx, dy), (m, u, v, du, dv) = crossing()
    k = nonzero('k')
    assume(k * dx * dv - k * dy * du != 0)
    a = l if which == 0 else m
    b = {'longer': lambda: Line(a.origin, a.direction * k), 'reversed': lambda: Line(a.p2, -a.direction),
         'start': lambda: Line(a.origin + a.direction * k, a.direction)}[change]()
    same((b.intersection(m) if which == 0 else l.intersection(b)).xy(), l.intersection(m).xy(), 'same point')


def case_through_common_point():
    """two lines through a point meet there"""
    c, d1, d2 = pt('c'), vec('d1'), vec('d2')
    s, t = real('s'), real('t')
    assume(d1.cross(d2) != 0)
    l, m = Line(c + d1 * s, d1), Line(c + d2 * t, d2)
    same(l.intersection(m).xy(), c.xy(), 'there')


def case_parallel(kind=('shifted', 'longer', 'reversed', 'none', 'same')):
    l, x, y, dx, dy = line('l')
    k = nonzero('k')
    m = {'shifted': lambda: l + vec('v'), 'longer': lambda: Line(pt('q'), l.direction * k), 'reversed': lambda: Line(pt('q'), -l.direction),
         'none': lambda: Line(pt('q'), Vector(0, 0)), 'same': lambda: l}[kind]()
    check(l.parallel(m) and m.parallel(l), 'parallel, both ways')
    check(raises(ParallelLineError, l.intersection, m), 'no crossing')
    check(raises(ParallelLineError, m.intersection, l), 'nor the other way')


def case_not_parallel(hl=HOW):
    (l, x, y, dx, dy), (m, u, v, du, dv) = crossing(hl)
    check(not l.parallel(m) and not m.parallel(l), 'not parallel')
    assume(dx * dx + dy * dy != 0)
    check(not l.parallel(Line(l.origin, l.direction.normal())), 'perpendicular lines are not')


# ---------------------------------------------------------------------- segments
def segments(d1, d2, s, t):
    """two segments and their lines' crossing: at s of the first, t of the second"""
    c = pt('c')
    l, m = Line(c - d1 * s, d1), Line(c - d2 * t, d2)
    return c, l, m


DIRS = {'diagonal': (lambda: Vector(pos('a'), pos('b')), lambda: Vector(pos('u'), -pos('v'))),
        'upright': (lambda: Vector(pos('a'), 0), lambda: Vector(0, pos('v'))),
        'upright2': (lambda: Vector(0, -pos('a')), lambda: Vector(-pos('v'), 0)),
        'flat': (lambda: Vector(pos('a'), 0), lambda: Vector(pos('u'), pos('v'))),
        'back': (lambda: Vector(-pos('a'), -pos('b')), lambda: Vector(-pos('u'), pos('v')))}
INSIDE = {'middle': 0.5, 'early': 0.25, 'late': 0.875}
OUTSIDE = {'before': -0.5, 'behind': 1.5, 'far': 7}


def case_segments_cross(dirs=tuple(DIRS), s=tuple(INSIDE), t=tuple(INSIDE)):
    """segments that cross say where, and how far along each"""
    f, g = DIRS[dirs]
    c, l, m = segments(f(), g(), INSIDE[s], INSIDE[t])
    r = l.segment_intersection(m)
    check(r is not None, 'they cross')
    same((r[0].xy(), r[1], r[2]), (c.xy(), INSIDE[s], INSIDE[t]), 'there')
    q = m.segment_intersection(l)
    check(q is not None, 'seen from the other too')
    same((q[0].xy(), q[1], q[2]), (c.xy(), INSIDE[t], INSIDE[s]), 'there, with the parts exchanged')


def case_segments_apart(dirs=tuple(DIRS), s=tuple(OUTSIDE), t=('middle', 'early', 'late', 'before', 'behind')):
    """segments that do not reach the crossing of their lines do not cross"""
    f, g = DIRS[dirs]
    c, l, m = segments(f(), g(), OUTSIDE[s], INSIDE[t] if t in INSIDE else OUTSIDE[t])
    check(l.segment_intersection(m) is None, 'they do not')
    check(m.segment_intersection(l) is None, 'nor the other way')


def case_segments_touch(dirs=('diagonal', 'flat', 'back'), s=(0.5, 0.25), t=(0, 1)):
    """an end on the inside of the other segment counts"""
    f, g = DIRS[dirs]
    c, l, m = segments(f(), g(), s, t)
    assume(m.segment_bbox().overlaps(l.segment_bbox()))
    r = l.segment_intersection(m)
    check(r is not None, 'they meet')
    same((r[0].xy(), r[1], r[2]), (c.xy(), s, t), 'at the end')
    r = m.segment_intersection(l)
    check(r is not None, 'whichever is asked')
    same((r[0].xy(), r[1], r[2]), (c.xy(), t, s), 'at the same place')


def case_segments_corner(dirs=('diagonal', 'flat', 'back'), s=(0, 1), t=(0, 1)):
    """two segments that share an end, their boxes overlapping"""
    f, g = DIRS[dirs]
    c, l, m = segments(f(), g(), s, t)
    assume(m.segment_bbox().overlaps(l.segment_bbox()))
    r = l.segment_intersection(m)
    check(r is not None, 'they meet')
    same((r[0].xy(), r[1], r[2]), (c.xy(), s, t), 'at that end')


def case_segments_far(gap=('x', 'y')):
    """segments whose boxes are apart never cross, parallel or not"""
    p, d, e, g = pt('p'), Vector(pos('a'), pos('b')), Vector(pos('u'), pos('v')), pos('g')
    l = Line(p, d)
    m = Line(p + d + (Vector(g, 0) if gap == 'x' else Vector(0, g)), e)
    check(l.segment_intersection(m) is None, 'apart')
    check(m.segment_intersection(l) is None, 'both ways')
    n = Line(m.origin, d)
    check(l.segment_intersection(n) is None, 'and so are parallel ones')


def case_segments_parallel():
    """parallel segments next to each other have no one crossing"""
    p, a, b = pt('p'), pos('a'), pos('b')
    l, m = Line(p, Vector(4 * a, 4 * b)), Line(p + Vector(a, 2 * b), Vector(2 * a, 2 * b))
    check(raises(ParallelLineError, l.segment_intersection, m), 'refused')
    check(raises(ParallelLineError, m.segment_intersection, l), 'both ways')


def case_segments_general():
    """whatever the segments, a reported crossing is on both"""
    l, x, y, dx, dy = line('l')
    m, u, v, du, dv = line('m')
    assume(dx * dv - dy * du != 0)
    r = l.segment_intersection(m)
    if r is not None:
        same(r[0].xy(), (x + r[1] * dx, y + r[1] * dy), 'on the one')
        same(r[0].xy(), (u + r[2] * du, v + r[2] * dv), 'and on the other')
        check(0 <= r[1] <= 1, 'within the one')
        check(0 <= r[2] <= 1, 'and within the other')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c05': ('point_plus_vector', 'coincident'),
}
