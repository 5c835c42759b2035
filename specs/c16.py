"""C16: arcs, circles, crosses and path helpers give points where they say."""
from specs.prelude import *
from x7.geom.utils import *
from x7.geom import utils
import math


def on_circle(c, r, deg):
    t = math.radians(deg)
    return c.x + r * math.cos(t), c.y + r * math.sin(t)


def dist2(p, c):
    return (p[0] - c.x) ** 2 + (p[1] - c.y) ** 2


def centre(k):
    return pt('c') if k == 'plain' else point_of(k, 'c')


# ---------------------------------------------------------------------- circles and arcs
def case_circle(k=('plain', 'PointRelative', 'PointCalc')):
    r, c = real('r'), centre(k)
    out = circle(r, c)
    same(len(out), 361, 'a point for each degree, closing up')
    for i in (0, 1, 2, 45, 90, 180, 200, 358, 359):
        same(dist2(out[i], c), r * r, 'at the distance of the radius')
    same(out[0], on_circle(c, r, 0), 'starts at the right')
    check(all(type(p) is tuple and len(p) == 2 for p in out), 'pairs of numbers')
    same(out[360], on_circle(c, r, 0), 'ends where it started')


def case_circle_default():
    r = real('r')
    same(circle(r), circle(r, Point(0, 0)), 'about the origin by default')


def case_arc_radius(direction=('ccw', 'cw', 'none'), steps=(1, 2, 3, 5)):
    """whatever the angles, an arc stays at its radius and joins the two angles"""
    r, c, sa, ea = real('r'), pt('c'), real('sa'), real('ea')
    out = arc(r, sa, ea, c, steps, direction)
    same(len(out), steps + 1, 'as many steps as asked for')
    for p in out:
        same(dist2(p, c), r * r, 'at the distance of the radius')
    same(out[0], on_circle(c, r, sa), 'starts at the start angle')
    same(out[-1], on_circle(c, r, ea), 'ends at the end angle')


ANGLES = ((0, 90), (90, 0), (350, 10), (10, 350), (-90, 45), (45, -90), (720, 30), (200, 200), (0, 359), (359, 0))


def case_arc_ccw(angles=ANGLES):
    """counter-clockwise: the angle grows evenly by the difference taken forward"""
    r, c, k, l = real('r'), pt('c'), integer('k'), integer('l')
    sa, ea = angles
    sweep = (ea - sa) % 360
    want = [on_circle(c, r, sa + sweep * i / 4) for i in range(5)]
    same(arc(r, sa, ea, c, 4), want, 'evenly forward')
    same(arc(r, sa + 360 * k, ea + 360 * l, c, 4, 'ccw'), want, 'whole turns do not matter')


def case_arc_cw(angles=ANGLES):
    r, c, k, l = real('r'), pt('c'), integer('k'), integer('l')
    sa, ea = angles
    sweep = (sa - ea) % 360
    want = [on_circle(c, r, sa - sweep * i / 4) for i in range(5)]
    same(arc(r, sa, ea, c, 4, 'cw'), want, 'evenly backward')
    same(arc(r, sa + 360 * k, ea + 360 * l, c, 4, direction='cw'), want, 'whole turns do not matter')


def case_arc_none(steps=(2, 4)):
    r, c, sa, ea = real('r'), pt('c'), real('sa'), real('ea')
    out = arc(r, sa, ea, c, steps, 'none')
    for i in range(steps + 1):
        same(out[i], on_circle(c, r, sa + (ea - sa) * i / steps), 'evenly from start to end, angles as given')


def case_arc_default_steps(angles=((0, 90), (350, 10), (20, 20), (0.5, 3))):
    sa, ea = angles
    out = arc(real('r'), sa, ea, pt('c'))
    same(len(out), int((ea - sa) % 360 + 1) + 1, 'at least a step for each degree')
    same(arc(1, 0, 45), arc(1, 0, 45, Point(0, 0), -1, 'ccw'), 'defaults: about the origin, counter-clockwise')


def case_arc_default_steps_none(angles=((0, 90), (350, 10), (0, 360), (0, 370), (20, 20), (10, -360), (0, 360.5))):
    sa, ea = angles
    r, c = real('r'), pt('c')
    out = arc(r, sa, ea, c, direction='none')
    n = int(abs(ea - sa) + 1)
    same(len(out), n + 1, 'at least a step for each degree there is to go')
    same(out[-1], on_circle(c, r, ea), 'up to the end')
    same(out[1], on_circle(c, r, sa + (ea - sa) / n), 'evenly')


def case_arc2p(side=(1, -1, 5, -3), spots=((0, 0, 6, 0), (1, 1, 1, 2), (-3, 4, 5, -2))):
    """an arc through two points: the centre is at the radius from both"""
    x, y, u, v = spots
    dx, dy = real('dx'), real('dy')
    s, e, r = Point(x + dx, y + dy), Point(u + dx, v + dy), 20 + pos('r')
    out = arc2p(r, s, e, 4, side)
    same(len(out), 8, 'end, centre, start and the arc')
    same((out[0], out[2]), (e.xy(), s.xy()), 'end and start are given back')
    c = Point(*out[1])
    same((dist2(s.xy(), c), dist2(e.xy(), c)), (r * r, r * r), 'the centre is at the radius from both points')
    for p in out[3:]:
        same(dist2(p, c), r * r, 'the arc stays at the radius')
    w = (e - s).cross(c - s)
    check(w * side < 0, 'a positive side has the centre to the right on the way to the end')


def case_arc2p_half():
    """as far apart as can be: the centre is the middle"""
    s, r = pt('s'), pos('r')
    e = s + Vector(2 * r, 0)
    out = arc2p(r, s, e, 3)
    same(out[1], (s.x + r, s.y), 'the centre is the middle')


def case_arc2p_refused(far=(1, 2)):
    s, r = pt('s'), pos('r')
    check(raises(Exception, arc2p, r, s, s + Vector(2 * r + far, 0)), 'too far apart is refused')
    check(raises(Exception, arc2p, r, s, Point(s.x, s.y)), 'the same point twice is refused')


# ---------------------------------------------------------------------- marks
def case_marks():
    r, c = nonneg('r'), pt('c')
    a = plus(r, c)
    same(a, [(c.x - r, c.y), (c.x + r, c.y), c.xy(), (c.x, c.y - r), (c.x, c.y + r)], 'a plus has its arms along the axes')
    b = cross(r, c)
    h = r * math.sqrt(2) / 2
    same(b, [(c.x - h, c.y - h), (c.x + h, c.y + h), c.xy(), (c.x + h, c.y - h), (c.x - h, c.y + h)], 'a cross has its arms along the diagonals')
    for p in (a[0], a[1], a[3], a[4], b[0], b[1], b[3], b[4]):
        same(dist2(p, c), r * r, 'arms are of the length of the radius')
    same((plus(r), cross(r)), (plus(r, Point(0, 0)), cross(r, Point(0, 0))), 'about the origin by default')


# ---------------------------------------------------------------------- angles
def case_min_rotation():
    t, s = real('t'), real('s')
    m = min_rotation(t, s)
    same((t - s - m) % 360, 0, 'turning by it leads from source to target, up to whole turns')
    check(-180 <= m, 'never more than half a turn back')
    check(m < 180, 'less than half a turn forward')
    same(min_rotation(t + 360 * integer('k'), s + 360 * integer('l')), m, 'whole turns do not matter')


def case_min_rotation_values(v=((20, 10, 10), (-340, 10, 10), (20, 370, 10), (10, 20, -10), (350, 10, -20), (10, 350, 20), (0, 0, 0), (90, 0, 90), (0, 90, -90))):
    same(min_rotation(v[0], v[1]), v[2], 'documented values')


# ---------------------------------------------------------------------- paths of points
def path_of(n, kinds=('Point', 'PointRelative', 'PointCalc')):
    return [point_of(kinds[i % 3], 'p%d' % i) for i in range(n)]


def case_rotate(n=(0, 1, 3)):
    a, path = angle('a'), path_of(n)
    t = math.radians(a)
    cw = path_rotate(path, a)
    ccw = path_rotate_ccw(path, a)
    same((len(cw), len(ccw)), (n, n), 'as many points')
    for i in range(n):
        x, y = path[i].xy()
        same(cw[i], (x * math.cos(t) + y * math.sin(t), y * math.cos(t) - x * math.sin(t)), 'rotated')
        same(ccw[i], (x * math.cos(t) - y * math.sin(t), x * math.sin(t) + y * math.cos(t)), 'rotated counter-clockwise')
    same([p.xy() for p in path_rotate(path, a, True)], cw, 'as points: the same')
    same([p.xy() for p in path_rotate_ccw(path, a, as_pt=True)], ccw, 'as points: the same')
    check(all(isinstance(p, Point) for p in path_rotate(path, a, True) + path_rotate_ccw(path, a, True)), 'points when asked for')
    same(path_rotate(path_rotate_ccw(path, a, True), a), path_to_xy(path), 'the two undo each other')


def case_translate(n=(0, 1, 3), by=('Vector', 'VectorRelative', 'Point', 'PointRelative')):
    path = path_of(n)
    d = vector_of(by, 'd') if by.startswith('V') else point_of(by, 'd')
    dx, dy = d.xy()
    want = [(p.x + dx, p.y + dy) for p in path]
    same(path_translate(path, d), want, 'moved')
    out = path_translate(path, d, True)
    check(all(isinstance(p, BasePoint) for p in out), 'points when asked for')
    same([p.xy() for p in out], want, 'as points: the same')


def case_helpers_give_new_points(op=('translate', 'translate nothing', 'rotate', 'rotate_ccw', 'rotate nothing', 'rotate_ccw nothing', 'from_xy'), n=(0, 1, 3)):
    """what the helpers give is a new list of new points: changing it changes nothing that was given"""
    path = path_of(n)
    before = observe(path)
    ops = {
        'translate': lambda: path_translate(path, vec('d'), True),
        'translate nothing': lambda: path_translate(path, Vector(0, 0), as_pt=True),
        'rotate': lambda: path_rotate(path, angle('a'), True),
        'rotate_ccw': lambda: path_rotate_ccw(path, angle('a'), True),
        'rotate nothing': lambda: path_rotate(path, 0, True),
        'rotate_ccw nothing': lambda: path_rotate_ccw(path, 360, as_pt=True),
        'from_xy': lambda: path_from_xy([p.xy() for p in path]),
    }
    out = ops[op]()
    same(len(out), n, 'as many points')
    check(all(type(p) is Point for p in out), 'plain points, whatever was given')
    for p in out:
        p.setxy(real('nx'), real('ny'))
    out.append(Point(1, 1))
    same(observe(path), before, 'what was given is not changed')


def case_convert(n=(0, 1, 3)):
    path = path_of(n)
    xy = [(p.x, p.y) for p in path]
    same(path_to_xy(path), xy, 'coordinates in order')
    out = path_from_xy(xy)
    check(all(type(p) is Point for p in out), 'points')
    same(path_to_xy(out), xy, 'there and back')


def case_check_list(bad=(0, 1, 2)):
    check_point_list(path_of(3))
    check_point_list([])
    for other in (5, 'p', (1, 2), None, Vector(1, 2)):
        lst = path_of(3)
        lst[bad] = other
        check(raises(ValueError, check_point_list, lst), 'anything but points is refused, wherever it is')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c05': ('point_plus_vector',),
}
