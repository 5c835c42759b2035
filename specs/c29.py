"""C29: crossings of curves are what the curve solver finds; splitting a curve at its crossings keeps its outline.

The numeric solver (bezier.Curve) is replaced by an exact one: on the curves of a case it reports exactly the crossings that
are there, in the solver's format.
"""
from specs.prelude import *
from x7.geom.bezier import bez_intersect, bez_intersect_new, bez_self_intersect, bez_split
import numpy as np


def lerp(p, q, t):
    return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))


def cut(nodes, t0, t1):
    """the part of a cubic from t0 to t1, as a cubic"""
    def blossom(a, b, c):
        l1 = [lerp(nodes[i], nodes[i + 1], a) for i in range(3)]
        l2 = [lerp(l1[i], l1[i + 1], b) for i in range(2)]
        return lerp(l2[0], l2[1], c)
    return [blossom(t0, t0, t0), blossom(t0, t0, t1), blossom(t0, t1, t1), blossom(t1, t1, t1)]


def at(nodes, t):
    return cut(nodes, t, t)[0]


class Solver(object):
    """stands for bezier.Curve"""
    segments = []
    crossings = []
    turned = False
    calls = []

    def __init__(self, nodes, degree, **kw):
        same(degree, 3, 'the curves are cubic')
        check(nodes.shape == (2, 4), 'four control points of two coordinates')
        self.p = [(nodes[0, i], nodes[1, i]) for i in range(4)]

    def place(self):
        for i, s in enumerate(Solver.segments):
            for t0, t1 in ((0, 1), (0, 0.5), (0.5, 1)):
                q = cut(s, t0, t1)
                if self.p[0] == q[0] and self.p[3] == q[3]:
                    same(self.p, q, 'the solver is asked about parts of the curve')
                    return i, t0, t1
        raise LookupError('not a part of the curve')

    def intersect(self, other, **kw):
        i, a0, a1 = self.place()
        j, b0, b1 = other.place()
        found = []
        for ci, ti, cj, tj in Solver.crossings:
            for xi, tx, yj, ty in ((ci, ti, cj, tj), (cj, tj, ci, ti)):
                if (i, j) == (xi, yj) and a0 <= tx <= a1 and b0 <= ty <= b1:
                    found.append(((tx - a0) / (a1 - a0), (ty - b0) / (b1 - b0)))
        if self.p[3] == other.p[0]:
            found.append((1, 0))
        if self.p[0] == other.p[3]:
            found.append((0, 1))
        if Solver.turned:
            found = found[::-1]
        if not found:
            return np.array([])
        return np.array(found).T

    def evaluate_multi(self, ts):
        pts = [at(self.p, t) for t in ts]
        return np.array([[x for x, y in pts], [y for x, y in pts]])

    def plot(self, *a, **kw):
        return None

    def evaluate(self, t):
        x, y = at(self.p, t)
        return np.array([[x], [y]])


def solve(segments, crossings, turned=False):
    Solver.segments, Solver.crossings, Solver.turned = segments, crossings, turned
    stand_in('bezier.Curve', Solver)


def nodes_of(a, b):
    return [p.xy() for p in (a.c, a.r, b.l, b.c)]


def outline(cps):
    return [nodes_of(a, b) for a, b in zip(cps, cps[1:] + cps[:1])]


def split_up(cps, crossings, turned, crossing_points):
    """the returned curves are made of the parts of the outline between crossings, each once"""
    segs = outline(cps)
    solve(segs, crossings, turned)
    before = [cp.copy() for cp in cps]
    out = bez_self_intersect(cps)
    check(cps == before, 'the given control points are not changed')
    parts = []
    for i, s in enumerate(segs):
        ts = sorted([0, 1] + [t for c in crossings for k, t in ((c[0], c[1]), (c[2], c[3])) if k == i])
        if any(c[0] == i and c[2] == i for c in crossings):
            ts = sorted(ts + [0.5])
        parts.extend(cut(s, a, b) for a, b in zip(ts, ts[1:]))
    got = [s for c in out for s in outline(c)]
    same(len(got), len(parts), 'as many parts as between crossings')
    for s in got:
        k = [i for i, p in enumerate(parts) if p == s]
        check(len(k) > 0, 'each part is a part of the outline, not used before')
        if k:
            parts.pop(k[0])
    corners = [at(segs[c[0]], c[1]) for c in crossings]
    for c in out:
        check(len(c) > 1, 'a curve has control points')
        check(any(cp.c.xy() in corners for cp in c), 'each curve passes a crossing')
        for cp in c:
            if cp.c.xy() in corners:
                same(cp.kind, 'sharp', 'corners at crossings are sharp')
    return out


# ---------------------------------------------------------------------- splitting
def case_figure_eight(turned=(False, True)):
    """two segments crossing half way, any handles"""
    a, u, w = pt('a'), vec('u'), vec('w')
    mid = a + Vector(1 + pos('m'), real('mid.y'))
    b = mid + Vector(1 + pos('n'), real('b.y'))
    v = ((mid - a) - (b - a) * 0.5) / 0.375 - u
    z = u + v - w
    cps = [ControlPoint(a, z, u), ControlPoint(b, v, w)]
    out = split_up(cps, [(0, 0.5, 1, 0.5)], turned, 1)
    same(len(out), 2, 'two loops')


def place(x, y):
    """a position in a scaled and moved drawing"""
    return real('o.x') + x * (1 + pos('s.x')), real('o.y') + y * (1 + pos('s.y'))


def straight(pts):
    """a closed curve of straight segments"""
    ps = [Point(*place(x, y)) for x, y in pts]
    n = len(ps)
    return [ControlPoint(ps[i], (ps[i - 1] - ps[i]) * (1 / 3), (ps[(i + 1) % n] - ps[i]) * (1 / 3)) for i in range(n)]


def line_crossings(pts):
    n = len(pts)
    segs = [(pts[i], pts[(i + 1) % n]) for i in range(n)]
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            if j - i in (1, n - 1):
                continue
            (ax, ay), (bx, by) = segs[i]
            (cx, cy), (dx, dy) = segs[j]
            ux, uy, vx, vy, wx, wy = bx - ax, by - ay, dx - cx, dy - cy, cx - ax, cy - ay
            det = ux * vy - uy * vx
            if det != 0:
                t, s = (wx * vy - wy * vx) / det, (wx * uy - wy * ux) / det
                if 0 < t < 1 and 0 < s < 1:
                    out.append((i, t, j, s))
    return out


SHAPES = {
    'bow': [(0, 0), (4, 2), (4, 0), (0, 2)],
    'bow2': [(4, 2), (4, 0), (0, 2), (0, 0)],
    'two': [(0, 0), (6, 0), (6, 4), (1, -2), (4, -2), (2, 5)],
    'three': [(0, 0), (9, 0), (7, 3), (6, -1), (4, -1), (3, 2), (1, -2)],
    'four': [(0, 0), (8, 0), (8, 4), (6, -4), (4, 4), (2, -4), (0, 4)],
    'above': [(-1, 0), (1, 2), (-1, 4), (1, 4), (-1, 2), (1, 0)],       # crossings one above the other
    'beside': [(0, -1), (2, 1), (4, -1), (4, 1), (2, -1), (0, 1)],      # side by side
    'star': [(0, 3), (2, -3), (-3, 1), (3, 1), (-2, -3)],
}


def case_crossings(shape=tuple(SHAPES), turned=(False, True)):
    pts = SHAPES[shape]
    cr = line_crossings(pts)
    assert len(cr) == {'bow': 1, 'bow2': 1, 'above': 2, 'beside': 2, 'two': 3, 'three': 3, 'four': 4, 'star': 5}[shape]
    split_up(straight(pts), cr, turned, 1)


def case_loop(turned=(False, True), n=(2, 3)):
    """a segment that crosses itself"""
    k = 11 / 9
    ps = [Point(*place(x, y)) for x, y in ((0, 0), (8 * k, 6), (8 * (1 - k), 6), (8, 0))]
    a, b, c, d = ps
    below = Point(*place(4, -5))
    cps = [ControlPoint(a, (below - a) * 0.25, b - a), ControlPoint(d, c - d, (below - d) * 0.25),
           ControlPoint(below, (d - below) * 0.25, (a - below) * 0.25)]
    if n == 2:
        cps = [ControlPoint(a, below - a, b - a), ControlPoint(d, c - d, below - d)]
    split_up(cps, [(0, 0.25, 0, 0.75)], turned, 1)


def case_neighbours(turned=(False, True), kind=('tight', 'loose')):
    """two segments that meet and cross again, in an outline of four"""
    a, b, c, d, far = [Point(*place(x, y)) for x, y in ((0, 0), (4, 0), (1, -3), (-2, -4), (3, 7))]
    u, none = far - a, Vector(0, 0)
    v, w = ((c - d) * 0.5, (a - d) * 0.25) if kind == 'loose' else (none, none)
    # half way along both: the same place
    z = (a - c) * (4 / 3) + u + v - w
    cps = [ControlPoint(a, (d - a) * 0.25, u), ControlPoint(b, v, w), ControlPoint(c, z, (d - c) * 0.25), ControlPoint(d, (c - d) * 0.25, (a - d) * 0.25)]
    split_up(cps, [(0, 0.5, 1, 0.5)], turned, 1)


def case_none(n=(2, 3, 5)):
    cps = straight([(0, 0), (4, 0), (5, 3), (2, 6), (-1, 4)][:n])
    solve(outline(cps), [])
    same(bez_self_intersect(cps), [], 'nothing to split')


PLACES = {'moved': (1, 0, 100, 0, 1, 50), 'scaled': (2, 0, 0, 0, 3, 0), 'turned': (0, -1, 100, 1, 0, 0), 'skewed': (2, 1, 100, -1, 3, 0)}


def case_element_place(how=tuple(PLACES), closed=(True, False)):
    """crossings are looked for, and parts made, where the shape is drawn"""
    cps = straight(SHAPES['bow'])
    e = ElemCurve('e', PenBrush('ink'), cps, closed, Transform(PLACES[how]))
    moved = [cp.transform(e.xform) for cp in cps]
    solve(outline(moved), [])
    same(e.self_intersect(), [], 'no crossings, no curves')
    solve(outline(moved), line_crossings(SHAPES['bow']))
    out = e.self_intersect()
    same(len(out), 2, 'two parts')
    corners = [cp.c.xy() for cp in moved]
    for c in out:
        check(any(cp.c.xy() in corners for cp in c.control_points), 'each passes a corner of the shape where it is drawn')


def case_element(closed=(True, False), xform=(True, False)):
    """the curves of a shape, through its transform, in its pen, under numbered names"""
    cps = straight(SHAPES['bow'])
    pb = penbrush('p') if closed else PenBrush('ink')
    t = Transform((2, 0, real('t.x'), 0, 3, real('t.y'))) if xform else None
    e = ElemCurve('e', pb, cps, closed, t)
    moved = [cp.transform(e.xform) for cp in cps]
    solve(outline(moved), line_crossings(SHAPES['bow']))
    want = bez_self_intersect(moved)
    out = e.self_intersect()
    same([c.control_points for c in out], want, 'the parts, where the shape is drawn')
    same([c.name for c in out], ['e_i0', 'e_i1'], 'numbered names')
    for c in out:
        check(type(c) is ElemCurve and c.penbrush == pb and c.closed == closed and c.xform == Transform(), 'curves in the same pen')
    solve(outline([cp.transform(e.xform) for cp in cps]), [])
    same(e.self_intersect(), [], 'no crossings, no curves')


# ---------------------------------------------------------------------- crossings of two segments
def segment(k):
    return ControlPoint(pt(k + '1'), vec(k + '2'), vec(k + '3')), ControlPoint(pt(k + '4'), vec(k + '5'), vec(k + '6'))


class Finder(Solver):
    """reports given crossings"""
    answer = []
    seen = []

    def intersect(self, other, **kw):
        Finder.seen.append((self.p, other.p))
        if Finder.answer is None:
            raise NotImplementedError('too many candidates')
        if not Finder.answer:
            return np.array([])
        return np.array(Finder.answer).T


def finder(answer):
    stand_in('bezier.Curve', Finder)
    Finder.answer = answer


def case_intersect(n=(0, 1, 2, 3), endpoints=(True, False)):
    """as many as the solver finds, in its order, at the place of curve A"""
    a, b, c, d = segment('a') + segment('b')
    found = [(unit('t%d' % i), unit('s%d' % i)) for i in range(n)]
    for t, s in found:
        assume(t > 0 and t < 1)
    finder(found)
    out = bez_intersect_new(a, b, c, d, endpoints=endpoints)
    same(Finder.seen[-1], (nodes_of(a, b), nodes_of(c, d)), 'the crossings of these two curves')
    same([(p.xy(), t, s) for p, t, s in out], [(at(nodes_of(a, b), t), t, s) for t, s in found], 'crossings and their places')
    for p, t, s in out:
        check(type(p) is Point, 'places are points')
    same(bez_intersect(a, b, c, d, as_points=True, endpoints=endpoints), [p for p, t, s in out], 'as points')
    ts = bez_intersect(a, b, c, d, endpoints=endpoints)
    same([tuple(x) for x in ts], [tuple(t for t, s in found), tuple(s for t, s in found)] if found else [], 'as parameters')


def case_intersect_ends(order=((0, 1, 2), (2, 0, 1), (1, 2, 0)), endpoints=(True, False)):
    """where one curve ends and the other starts is a crossing only on request"""
    a, b, c, d = segment('a') + segment('b')
    t, s = unit('t'), unit('s')
    assume(t > 0 and t < 1)
    every = [(1, 0), (t, s), (0, 1)]
    found = [every[i] for i in order]
    finder(found)
    want = found if endpoints else [(t, s)]
    same([(u, v) for p, u, v in bez_intersect_new(a, b, c, d, endpoints=endpoints)], want, 'ends only on request')
    same(len(bez_intersect(a, b, c, d, as_points=True, endpoints=endpoints)), len(want), 'ends only on request')
    if endpoints:
        same(bez_intersect(a, b, c, d, as_points=True), [Point(*at(nodes_of(a, b), t))], 'ends are left out unless asked for')


def case_intersect_only_ends():
    a, b, c, d = segment('a') + segment('b')
    finder([(1, 0), (0, 1)])
    same(bez_intersect_new(a, b, c, d), [], 'curves that only meet at their ends do not cross')
    same(bez_intersect(a, b, c, d), [], 'curves that only meet at their ends do not cross')
    same(bez_intersect(a, b, c, d, as_points=True), [], 'curves that only meet at their ends do not cross')
    same([(t, s) for p, t, s in bez_intersect_new(a, b, c, d, endpoints=True)], [(1, 0), (0, 1)], 'unless asked for')


def case_intersect_same_ends(which=((0, 0), (1, 1))):
    """starts or ends meeting are crossings"""
    a, b, c, d = segment('a') + segment('b')
    finder([which])
    same([(t, s) for p, t, s in bez_intersect_new(a, b, c, d)], [which], 'a crossing')


def case_solver_gives_up(endpoints=(True, False), form=('new', 'points', 'values')):
    """no answer from the solver is no crossing, not an error"""
    a, b, c, d = segment('a') + segment('b')
    finder(None)
    f = {'new': lambda: bez_intersect_new(a, b, c, d, endpoints=endpoints), 'points': lambda: bez_intersect(a, b, c, d, as_points=True, endpoints=endpoints),
         'values': lambda: bez_intersect(a, b, c, d, endpoints=endpoints)}[form]
    same(f(), [], 'no crossings')


def case_intersect_apart(found=((), ((0, 0),), ((1, 1),), ((1, 0),), ((0, 1),), ((0.5, 0.5), (0.5, 0.5)), ((0, 1), (0.25, 0.5), (1, 0))), endpoints=(True, False), same_curve=(True, False)):
    """the crossings are points of their own, apart from the curves and from each other"""
    a, b, c, d = segment('a') + segment('b')
    if same_curve:
        c, d = a, b
    before = observe(a, b, c, d)
    finder([tuple(f) for f in found])
    out = bez_intersect_new(a, b, c, d, endpoints=endpoints)
    pts = [p for p, t, s in out] + list(bez_intersect(a, b, c, d, as_points=True, endpoints=endpoints))
    disjoint(pts, [a, b, c, d], 'crossings are points of their own')
    unshared(pts, 'and apart from each other')
    for p in pts:
        p.setxy(real('mx'), real('my'))
        p.name = 'mut'
    same(observe(a, b, c, d), before, 'the curves stay')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c15': ('split', 'split_twice'),
}
