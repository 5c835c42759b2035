"""C14: sampled Bezier curves are the curves: every sample is on the curve at its parameter, ends included."""
from specs.prelude import *
import math


def at(a, b, c, d, t):
    """the cubic with these control coordinates at t"""
    s = 1 - t
    return (s * s * s * a[0] + 3 * s * s * t * b[0] + 3 * s * t * t * c[0] + t * t * t * d[0],
            s * s * s * a[1] + 3 * s * s * t * b[1] + 3 * s * t * t * c[1] + t * t * t * d[1])


def quad(k):
    return [(real('%s%d.x' % (k, i)), real('%s%d.y' % (k, i))) for i in range(4)]


def pairs(flat):
    return [(flat[i], flat[i + 1]) for i in range(0, len(flat), 2)]


STEPS = (1, 2, 3, 5, 8)


def case_samples(steps=STEPS, form=('pairs', 'points', 'mixed', 'relative', 'computed')):
    """sample i of n is the curve at i/n"""
    raw = quad('p')
    if form == 'points':
        arg = [Point(x, y) for x, y in raw]
    elif form == 'mixed':
        arg = [raw[0], Point(*raw[1]), raw[2], Point(*raw[3])]
    elif form == 'relative':
        arg = [PointRelative(x - 1, y + 2, Point(1, -2)) for x, y in raw]
    elif form == 'computed':
        arg = [PointCalc(PointRelative(x, y, Point(0, 0)), 1) for x, y in raw]
    else:
        arg = raw
    want = [at(*raw, i / steps) for i in range(steps + 1)]
    out = bez(arg, steps, True)
    same(len(out), steps + 1, 'one more sample than steps')
    same(out, want, 'samples are on the curve at even parameters')
    same((out[0], out[-1]), (raw[0], raw[3]), 'the ends are the end points')
    flat = bez(arg, steps)
    same(len(flat), 2 * steps + 2, 'flat: two numbers per sample')
    same(pairs(flat), out, 'flat: the same samples')


def case_default_steps():
    raw = [Point(0, 0), Point(1, 2), Point(3, 4), Point(real('x'), real('y'))]
    same(len(bez(raw)), 2 * 81, 'eighty steps by default')
    same(bez(raw, as_xy=True)[20], at(*[p.xy() for p in raw], 1 / 4), 'evenly spread')


def case_reversed(steps=STEPS):
    raw = quad('p')
    same(bez(raw[::-1], steps, True), bez(raw, steps, True)[::-1], 'the reversed curve has the reversed samples')


def case_natural(steps=(2, 3)):
    """mapping the control points maps the curve"""
    raw, m = quad('p'), tf('m')
    same(bez([apply6(m, x, y) for x, y in raw], steps, True), [apply6(m, x, y) for x, y in bez(raw, steps, True)], 'affine maps act on samples')


def case_straight(steps=(2, 4)):
    """a curve with its handles on the line, a third each, runs along the line evenly"""
    a, d = pt('a'), pt('d')
    v = (d - a) / 3
    out = bez([a, a + v, d - v, d], steps, True)
    for i in range(steps + 1):
        same(out[i], (a + (d - a) * (i / steps)).xy(), 'evenly along the line')


def case_point(steps=(1, 3)):
    a = pt('a')
    same(bez([a, a, a, a], steps, True), [a.xy()] * (steps + 1), 'a curve of one point stays there')


def case_inputs_unchanged():
    raw = quad('p')
    keep = raw[:]
    bez(raw, 3)
    same(raw, keep, 'control points are not modified')


# ---------------------------------------------------------------------- outlines of control points
def cps_n(n):
    return [cp('c%d' % i) for i in range(n)]


def case_path(n=(1, 2, 3, 9), closed=(True, False), steps=(1, 2, 3)):
    """an outline is its segments one after another, joints once, mapped by the transform"""
    m = tf('m')
    out = pairs(bez_path(m, cps_n(n), closed, steps))
    c = cps_n(n)
    legs = n if closed else n - 1
    if legs == 0:
        same(out, [], 'a single point of an open curve has no outline')
        return
    same(len(out), legs * steps + 1, 'joints are not repeated')
    for i in range(legs):
        p, q = c[i], c[(i + 1) % n]
        quad4 = [p.c.xy(), p.r.xy(), q.l.xy(), q.c.xy()]
        for j in range(steps + 1):
            same(out[i * steps + j], apply6(m, *at(*quad4, j / steps)), 'segments in order, sampled evenly')


def case_path_loop(steps=(1, 2, 3)):
    """one control point of a closed curve: the loop from it to itself"""
    m, c = tf('m'), cp('c')
    out = pairs(bez_path(m, [c], True, steps))
    loop = [c.c.xy(), c.r.xy(), c.l.xy(), c.c.xy()]
    same(out, [apply6(m, *at(*loop, j / steps)) for j in range(steps + 1)], 'the loop')
    e = ElemCurve('n', PenBrush('ink'), [cp('c')], True)
    d = DrawingContext(None, m)
    d.points_per_curve = steps
    same([tuple(p) for p in e.paths(d)[0].points.tolist()], out, 'a shape of one control point draws its loop')


def case_path_empty(closed=(True, False)):
    same(bez_path(tf('m'), [], closed), [], 'no control points, no outline')


def case_path_default():
    m = tf('m')
    same(len(bez_path(m, [cp('c0'), cp('c1')], True)), 2 * (2 * 20 + 1), 'twenty steps per segment by default')


def case_path_nonlinear():
    """a non-linear transformer moves the control points"""
    class Bend(Transformer):
        LINEAR = False

        def transform_np_pts(self, np_pts):
            return [(ufun('bx')(x, y), ufun('by')(x, y)) for x, y, _ in np_pts.T]
    t = Bend()
    p, q = cp('c0'), cp('c1')
    out = pairs(bez_path(t, [p, q], False, 2))
    quad4 = [t.transform(*v.xy()) for v in (p.c, p.r, q.l, q.c)]
    same(out, [at(*quad4, i / 2) for i in range(3)], 'the curve of the mapped control points')


def inside(b, x, y, msg):
    check(b.xl <= x and x <= b.xh and b.yl <= y and y <= b.yh, msg)


def case_hull(steps=(2, 3)):
    """a curve stays in the box of its control points"""
    x = [nonneg('a'), nonneg('b'), nonneg('c'), nonneg('d')]
    out = bez([(v, 0) for v in x], steps, True)
    for p in out:
        check(p[0] >= 0, 'above every lower bound')
        check(p[0] <= x[0] + x[1] + x[2] + x[3], 'and bounded')
    for p in bez([(real('e') - v, 0) for v in x], steps, True):
        check(p[0] <= real('e'), 'below every upper bound')


def case_curve_in_box(closed=(True, False)):
    """the outline of a curve lies in the box the curve reports"""
    def at_corner(k):
        return ControlPoint(Point(nonneg(k + 'x'), nonneg(k + 'y')), Vector(0, 0), Vector(nonneg(k + 'u'), nonneg(k + 'v')))
    e = ElemCurve('e', PenBrush('black'), [at_corner('a'), at_corner('b')], closed)
    d = DrawingContext(None, None)
    d.points_per_curve = 2
    b = e.bbox_int()
    for x, y in e.paths(d)[0].points.tolist():
        inside(b, x, y, 'covered')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c13': ('curve_outline', 'ellipse_outline', 'rectangle_outline'),
    'c15': ('split', 'split_twice', 'reversed', 'reverse_list'),
}
