"""C15: splitting, reversing, refining and offsetting curves keeps the curve (or moves it by the distance asked for)."""
from specs.prelude import *
import math


def at(p, q, t):
    """the point of the segment from control point p to control point q at t"""
    a, b, c, d = p.c.xy(), p.r.xy(), q.l.xy(), q.c.xy()
    s = 1 - t
    return (s * s * s * a[0] + 3 * s * s * t * b[0] + 3 * s * t * t * c[0] + t * t * t * d[0],
            s * s * s * a[1] + 3 * s * s * t * b[1] + 3 * s * t * t * c[1] + t * t * t * d[1])


def case_split(where=('default', 'given', 'start', 'end')):
    """the two halves trace the curve: one up to the split, the other from there"""
    p, q, s = cp('p'), cp('q'), real('s')
    if where == 'default':
        t = 1 / 2
        l, m, r = bez_split(p, q)
    else:
        t = real('t') if where == 'given' else 0 if where == 'start' else 1
        l, m, r = bez_split(p, q, t)
    same(at(l, m, s), at(p, q, s * t), 'first half')
    same(at(m, r, s), at(p, q, t + s * (1 - t)), 'second half')
    same(m.c.xy(), at(p, q, t), 'the new point is on the curve at the split')
    same((l.c.xy(), r.c.xy()), (p.c.xy(), q.c.xy()), 'the ends stay')
    same((l.dl.xy(), r.dr.xy()), (p.dl.xy(), q.dr.xy()), 'the outer handles stay')
    same(m.dl * (1 - t) + m.dr * t, Vector(0, 0), 'the handles of the new point are opposite, in proportion')


def case_split_twice():
    """splitting a half is splitting the whole"""
    p, q, t, u = cp('p'), cp('q'), real('t'), real('u')
    l, m, r = bez_split(p, q, t)
    a, b, c = bez_split(l, m, u)
    d, e, f = bez_split(p, q, t * u)
    same((b.c.xy(), b.dl.xy()), (e.c.xy(), e.dl.xy()), 'the same point and left handle')


def case_split_kinds_of_points(pk=('Point', 'PointRelative', 'PointCalc')):
    p = ControlPoint(point_of(pk, 'p'), vec('p.dl'), vec('p.dr'))
    q = ControlPoint(point_of(pk, 'q'), VectorRelative(pt('q1'), pt('q2')), vec('q.dr'))
    t, s = real('t'), real('s')
    l, m, r = bez_split(p, q, t)
    same((at(l, m, s), at(m, r, s)), (at(p, q, s * t), at(p, q, t + s * (1 - t))), 'both halves')


# ---------------------------------------------------------------------- reversing
def case_reversed():
    p, q, s = cp('p'), cp('q'), real('s')
    same(at(q.reversed(), p.reversed(), s), at(p, q, 1 - s), 'reversed control points trace the curve backwards')
    same(p.reversed().reversed(), p, 'reversing twice changes nothing')
    same(p.reversed().kind, p.kind, 'the kind is kept')


def case_reverse_list(n=(0, 1, 2, 3, 11)):
    cps = [cp('c%d' % i) for i in range(n)]
    s = real('s')
    rev = ControlPoint.reverse_list(cps)
    same(len(rev), n, 'as many control points')
    for i in range(n):
        same(at(rev[i], rev[(i + 1) % n], s), at(cps[(n - 2 - i) % n], cps[(n - 1 - i) % n], 1 - s), 'segments backwards, each reversed')
    same(cps, [cp('c%d' % i) for i in range(n)], 'the list itself is kept')
    same(ControlPoint.reverse_list(rev), cps, 'reversing twice changes nothing')


HANDLES = {'none': ((0, 0), (0, 0)), 'equal': ((1, 2), (1, 2)), 'opposite': ((-1, -2), (1, 2)), 'left only': ((3, 1), (0, 0)), 'right only': ((0, 0), (3, 1))}


def case_reverse_list_handles(handles=tuple(HANDLES), n=(1, 2, 3), kind=('smooth', 'sharp', 'very-smooth')):
    """reversed control points are other control points, however the handles lie"""
    dl, dr = HANDLES[handles]
    cps = [ControlPoint(pt('c%d' % i), Vector(*dl), Vector(*dr), kind) for i in range(n)]
    rev = ControlPoint.reverse_list(cps)
    same([(c.c.xy(), c.dl.xy(), c.dr.xy(), c.kind) for c in rev], [(c.c.xy(), dr, dl, kind) for c in reversed(cps)], 'last one first, handles swapped')
    check(not any(r is c for r in rev for c in cps), 'none of the control points given')
    for r in rev:
        r.kind = 'other'
    same([c.kind for c in cps], [kind] * n, 'changing the reversed ones leaves the given ones alone')


# ---------------------------------------------------------------------- adding a control point
def spots(layout):
    """centres such that the distances between neighbours are all different; the longest segment is `longest`"""
    return {'first': ((0, 0), (100, 0), (101, 5), (90, 20)), 'middle': ((0, 0), (3, 0), (103, 5), (90, 20)),
            'last': ((0, 0), (10, 0), (21, 1), (70, 7))}[layout] + ((85, 22), (81, 30), (70, 33), (66, 41), (60, 44))


def laid_out(layout, n, closed):
    cps = [ControlPoint(Point(*spots(layout)[i]), vec('c%d.dl' % i), vec('c%d.dr' % i)) for i in range(n)]
    return ElemCurve('e', PenBrush('black'), cps, closed)


def case_add_one(layout=('first', 'middle', 'last'), n=(2, 3, 4, 9), closed=(True, False)):
    """one more control point, the same curve: the longest segment is halved, the others stay"""
    e, s = laid_out(layout, n, closed), real('s')
    old = laid_out(layout, n, closed).control_points
    legs = n if closed else n - 1
    dist = [(old[i].c - old[(i + 1) % n].c).length() for i in range(legs)]
    k = [i for i in range(legs) if dist[i] == max(dist)][-1]
    for o in old:
        assume(o.c.xy() != at(old[k], old[(k + 1) % n], 1 / 2))
    e.add_one()
    new = e.control_points
    same(len(new), n + 1, 'one more control point')
    where = [i for i in range(n + 1) if new[i].c == Point(*at(old[k], old[(k + 1) % n], 1 / 2))]
    same(len(where), 1, 'the new control point is in the middle of the longest segment')
    w = where[0]
    rest = new[w + 1:] + new[:w]            # from the end of the split segment around to its start
    if closed:
        same(at(new[w - 1], new[w], s), at(old[k], old[(k + 1) % n], s / 2), 'first half')
        same(at(new[w], rest[0], s), at(old[k], old[(k + 1) % n], (1 + s) / 2), 'second half')
        for i in range(n - 1):
            same(at(rest[i], rest[i + 1], s), at(old[(k + 1 + i) % n], old[(k + 2 + i) % n], s), 'the other segments stay')
    else:
        same(w, k + 1, 'the control points stay in order')
        for i in range(n):
            if i < k:
                same(at(new[i], new[i + 1], s), at(old[i], old[i + 1], s), 'segments before stay')
            elif i > k + 1:
                same(at(new[i], new[i + 1], s), at(old[i - 1], old[i], s), 'segments after stay')
        same(at(new[k], new[k + 1], s), at(old[k], old[k + 1], s / 2), 'first half')
        same(at(new[k + 1], new[k + 2], s), at(old[k], old[k + 1], (1 + s) / 2), 'second half')


def case_add_one_single():
    """a closed curve of one control point is a loop"""
    e, s = ElemCurve('e', PenBrush('black'), [cp('c')], True), real('s')
    o = cp('c')
    e.add_one()
    a, b = e.control_points
    mid = at(o, o, 1 / 2)
    both = [at(a, b, s), at(b, a, s)]
    same((a.c.xy(), b.c.xy()), (mid, o.c.xy()), 'the loop is halved')
    same((both[1], both[0]), (at(o, o, s / 2), at(o, o, (1 + s) / 2)), 'both halves trace the loop')


def case_add_one_again(closed=(True, False)):
    """again and again"""
    e, s = ElemCurve('e', PenBrush('black'), [ControlPoint(Point(0, 0), Vector(-2, 1), Vector(3, -1)), ControlPoint(Point(10, 0), Vector(1, -4), Vector(2, 5))], closed), real('s')
    p, q = e.copy().control_points
    for i in range(3):
        e.add_one()
    same(len(e.control_points), 5, 'three more control points')
    pts = [c.c.xy() for c in e.control_points]
    check(p.c.xy() in pts and q.c.xy() in pts, 'the old control points are still there')
    for i in range(5 if closed else 4):
        a, b = e.control_points[i], e.control_points[(i + 1) % 5]
        there = [at(p, q, (k + s) / 4) == at(a, b, s) or at(p, q, (k + s) / 2) == at(a, b, s) for k in range(4)]
        back = [at(q, p, (k + s) / 4) == at(a, b, s) or at(q, p, (k + s) / 2) == at(a, b, s) for k in range(4)] if closed else []
        check(any(there + back), 'every segment is a piece of the old curve')


def case_add_one_keeps(closed=(True, False)):
    e = laid_out('first', 3, closed)
    x = e.xform
    e.add_one()
    same((e.name, e.closed, e.penbrush), ('e', closed, PenBrush('black')), 'nothing else changes')
    check(identical(e.xform, x), 'the transform stays')


# ---------------------------------------------------------------------- offsetting
def case_offset_pt_zero():
    p, o = pt('p'), real('o')
    same(ElemCurve.offset_pt(Vector(0, 0), p, vec('r'), o).xy(), p.xy(), 'no direction before: the point stays')
    same(ElemCurve.offset_pt(vec('l'), p, Vector(0, 0), o).xy(), p.xy(), 'no direction after: the point stays')


def case_offset_pt_straight(back=(False, True)):
    """on a straight piece the point moves at right angles by the distance"""
    p, o, k, l = pt('p'), real('o'), pos('k'), pos('l')
    d = Vector(real('d.x'), real('d.y'))
    assume(d.x != 0 or d.y != 0)
    q = ElemCurve.offset_pt(d * k, p, d * (l if back else -l), o)
    v = q - p
    same(v.dot(d), 0, 'at right angles')
    same(v.x * v.x + v.y * v.y, o * o, 'by the distance')
    same(d.cross(v) ** 2, o * o * (d.x * d.x + d.y * d.y), 'by the distance, off the line')
    check(o * d.cross(v) <= 0, 'a positive distance is to the left of the direction of travel')


def case_offset_pt_right_angle(turn=(1, -1)):
    """at a corner the point is moved to the same distance from both lines"""
    p, o, a, b = pt('p'), real('o'), pos('a'), pos('b')
    assume(o < 60 and o > -60)
    q = ElemCurve.offset_pt(Vector(a, 0), p, Vector(0, turn * b), o)
    v = q - p
    same(v.y * v.y, o * o, 'distance from the first line')
    same(v.x * v.x, o * o, 'distance from the second line')
    same(v.y, -o, 'on the same side as on a straight piece')


def case_offset_pt_limit():
    """however sharp the corner, the point never moves further than the limit, and to the side asked for"""
    p, o = pt('p'), real('o')
    q = ElemCurve.offset_pt(Vector(1, 0), p, Vector(12, 5), o)
    v = q - p
    check(v.y * o <= 0, 'to the side asked for')
    check(v.length() <= ElemCurve.OFFSET_PT_LIMIT, 'within the limit')


def case_offset_attributes(n=(2, 3)):
    cps = [ControlPoint(Point(*((0, 0), (10, 0), (5, 8))[i]), Vector(0, -1), Vector(0, 1), word('k%d' % i)) for i in range(n)]
    e = ElemCurve(word('e.name'), penbrush('e'), cps, True)
    f = e.offset(real('o'))
    check(type(f) is ElemCurve, 'a curve')
    same(f.name, e.name + '_o', 'named after the curve')
    same((f.closed, f.penbrush), (e.closed, e.penbrush), 'closing, pen and brush are kept')
    same(len(f.control_points), n, 'as many control points')
    same(f.xform, Transform(), 'without a transform')


def case_offset_nothing():
    """offsetting by nothing keeps every control point"""
    e = ElemCurve('e', PenBrush('black'), [ControlPoint(Point(0, 0), Vector(-2, 1), Vector(3, -1)), ControlPoint(Point(10, 0), Vector(1, -4), Vector(2, 5)),
                                           ControlPoint(Point(4, 9), Vector(1, 1), Vector(-3, 2))], True, Transform((1, 0, real('x'), 0, 1, real('y'))))
    f = e.offset(0)
    want = [tuple(apply6(e.xform, *q.xy()) for q in (d.c, d.l, d.r)) for d in e.control_points]
    got = [(d.c.xy(), d.l.xy(), d.r.xy()) for d in f.control_points]
    check(got == want or got == [(c, r, l) for c, l, r in want[::-1]], 'the same curve, possibly run backwards')


def outline(pts, run, third=True):
    """control points at the corners of a polygon with handles along its edges"""
    pts = pts[::run]
    n, cps = len(pts), []
    for i in range(n):
        p, q, r = (Point(*pts[(i + k) % n]) for k in (-1, 0, 1))
        cps.append(ControlPoint(q, (p - q) / 3 if third else (p - q) / 4, (r - q) / 3, 'sharp' if i % 2 else 'smooth'))
    return cps


def from_line(p, a, b):
    """distance (with sign) of p from the line a b, whose length is an integer"""
    d = b - a
    return d.cross(p - a) / d.length()


def case_offset_polygon(shape=('square', 'right', 'kite'), run=(1, -1), x=('none', 'twice', 'moved', 'mirrored', 'flipped', 'swapped', 'turned'), o=(1, -2)):
    """every corner and every handle moves by the distance from both edges, inwards if positive, whichever way the curve runs"""
    pts = {'square': [(0, 0), (24, 0), (24, 24), (0, 24)], 'right': [(0, 0), (24, 0), (0, 32)], 'kite': [(0, 0), (21, 28), (0, 56), (-21, 28)]}[shape]
    t = {'none': None, 'twice': Transform((2, 0, 0, 0, 2, 0)), 'moved': Transform((1, 0, 5, 0, 1, -3)), 'mirrored': Transform((-1, 0, 5, 0, 1, -3)),
         'flipped': Transform((1, 0, 0, 0, -1, 0)), 'swapped': Transform((0, 1, 0, 1, 0, 0)), 'turned': Transform((0, -1, 1, 1, 0, 2))}[x]
    e = ElemCurve('e', PenBrush('black'), outline(pts, run), True, t)
    where = [Point(*apply6(e.xform, *p)) for p in pts]
    n = len(pts)
    f = e.offset(o)
    if x in ('mirrored', 'flipped', 'swapped'):
        o = -o          # the inside is on the other side of every edge
    same(len(f.control_points), n, 'as many control points')
    for i in range(n):
        p, q, r = where[i - 1], where[i], where[(i + 1) % n]
        near = f.control_points
        check(any([from_line(c.c, p, q) == o and from_line(c.c, q, r) == o for c in near]), 'every corner is moved inwards by the distance')
        before, after = q + (p - q) / 3, q + (r - q) / 3

        def along(h, k):
            """the handles moved at right angles to their edges"""
            return from_line(h, p, q) == o and (h - before).dot(p - q) == 0 and from_line(k, q, r) == o and (k - after).dot(r - q) == 0
        check(any([from_line(c.c, p, q) == o and from_line(c.c, q, r) == o and (along(c.l, c.r) or along(c.r, c.l)) for c in near]),
              'the handles move with the edges')
        kind = 'sharp' if (i if run == 1 else n - 1 - i) % 2 else 'smooth'
        check(any([from_line(c.c, p, q) == o and from_line(c.c, q, r) == o and c.kind == kind for c in near]), 'every corner keeps its kind')


def case_offset_direction(n=(3, 4), o=(3, -2)):
    """a curve and its reversal offset to the same curve"""
    pts = [(0, 0), (40, -3), (37, 31), (-4, 22)][:n]
    a = ElemCurve('e', PenBrush('black'), outline(pts, 1, False), True, Transform((1, 0, real('x'), 0, 1, real('y'))))
    b = a.copy()
    b.control_points = ControlPoint.reverse_list(b.control_points)
    f, g = a.offset(o), b.offset(o)
    got = [(c.c, c.l, c.r) for c in f.control_points]
    back = [(c.c, c.r, c.l) for c in g.control_points]
    turned = [[back[(i + k) % n] for i in range(n)] for k in range(n)] + [[back[(k - i) % n] for i in range(n)] for k in range(n)]
    turned += [[(c, r, l) for c, l, r in t] for t in turned]
    check(any([t == got for t in turned]), 'the same control points')


DIRECTIONS = {
    'corner': (-3, 4, 12, 5), 'other corner': (-3, -4, 12, 5), 'wide': (-24, 7, 15, 8), 'flat': (-40, 9, 40, 9), 'almost straight': (-400, 1, 400, 1),
    'almost straight, other side': (-400, -1, 400, -1), 'hardly bent': (-300, 0, 299, 1), 'narrow': (12, 5, 3, 4), 'spike': (400, 1, 400, -1),
    'spike the other way': (400, -1, 400, 1), 'leaning spike': (300, 200, 301, 200), 'steep': (1, 200, -1, 200), 'unequal': (-1, 1, 1000, 900),
    'right angle': (0, 3, 5, 0), 'straight': (-3, -4, 6, 8), 'turned straight': (0, 5, 0, -2), 'short': (-0.25, 0.125, 0.25, 0.5),
}


def case_offset_distances(way=tuple(sorted(DIRECTIONS)), o=(1, -2, 0.125, -0.125), far=(False, True)):
    """a moved point is at the distance asked for from both of its lines, on the same side of them, unless that is too far away"""
    ux, uy, vx, vy = DIRECTIONS[way]
    u, v = Vector(ux, uy), Vector(vx, vy)
    p = Point(1000, -3) if far else Point(0, 0)
    q = ElemCurve.offset_pt(u, p, v, o)
    m = q - p
    if m.length() < 99.99:
        same((-u).cross(m) / u.length(), o, 'from the line before')
        same(v.cross(m) / v.length(), o, 'from the line after')
    else:
        check(m.length() < 100.01, 'never further than the limit')
        check(abs(o) / abs((u.unit() + v.unit()).unit().cross(u.unit())) > 99, 'only if it would be further')
    if way in ('straight', 'turned straight'):
        same(m.dot(v), 0, 'straight to the side')


BENT = {
    'lens': ((0, 0, 0, 12, 0, -12), (24, 0, 0, -12, 0, 12)),
    'leaf': ((0, 0, 3, 12, 2, -9), (24, 5, -1, -12, 1, 15)),
    'handles outweigh': ((0, 0, -40, 10, 30, -10), (10, 20, 25, -30, -35, 20), (20, 0, -8, 30, 40, -2)),
    'corners': ((0, 0, 0, 0, 9, -2), (30, 5, -7, 0, 0, 0), (33, 40, 2, -9, 0, 0), (-4, 22, 0, 0, 1, -8)),
    'wave': ((0, 0, -5, 9, 6, -7), (30, 0, -6, -9, 7, 8), (60, 10, -9, 5, 4, 8), (30, 50, 10, 3, -11, 3)),
}


def bent(which, run):
    cps = [ControlPoint(Point(x, y), Vector(a, b), Vector(c, d), 'k%d' % i) for i, (x, y, a, b, c, d) in enumerate(BENT[which])]
    return cps if run == 1 else ControlPoint.reverse_list(cps)


def case_offset_bent(which=tuple(sorted(BENT)), run=(1, -1), closed=(True, False), o=(1, -1.5)):
    """centres and handles of a bent curve move by the distance from the pieces they belong to"""
    e = ElemCurve('e', PenBrush('black'), bent(which, run), closed)
    f = e.offset(o)
    same((f.name, f.closed, f.penbrush, f.xform), ('e_o', closed, PenBrush('black'), Transform()), 'the same kind of curve')
    same([c.kind for c in e.control_points], ['k%d' % i for i in range(len(BENT[which]))][::run], 'the given curve stays')
    # positive is to the inside, so look at the curve the way that has the inside on its left
    x = e.control_points
    pts = [p for c in x for p in (c.l, c.c, c.r)]
    n = len(pts)
    if sum([pts[i - 1].v.cross(pts[i].v) for i in range(n)]) < 0:
        x = ControlPoint.reverse_list(x)
        pts = pts[::-1]
    got = f.control_points
    same(len(got), len(x), 'as many control points')
    for i in range(n):
        before, p, after = pts[i - 1], pts[i], pts[(i + 1) % n]
        c = got[i // 3]
        q = (c.l, c.c, c.r)[i % 3]
        u, v, m = before - p, after - p, q - p
        if not u or not v:
            same(m.xy(), (0, 0), 'a point without direction stays')
        elif m.length() < 99:
            same((-u).cross(m) / u.length(), o, 'from the piece before')
            same(v.cross(m) / v.length(), o, 'from the piece after')
    same([c.kind for c in got], [c.kind for c in x], 'kinds stay with their points')


def case_offset_nothing(closed=(True, False), kind=('sharp', 'smooth', 'very-smooth'), by=(0, 0.0)):
    """an offset by nothing is the same curve, corner for corner"""
    ends = ((0, 0), (30, 0), (40, 30), (10, 40))
    e = ElemCurve('e', PenBrush('black'), [ControlPoint(Point(x, y), Vector(1, -3), Vector(2, 5), kind) for x, y in ends], closed)
    f = e.offset(by)
    n = len(ends)
    same(len(f.control_points), n, 'as many points')
    look = [(c.c.xy(), c.kind) for c in f.control_points]
    check(any([look == [(ends[(i + d * j) % n], kind) for j in range(n)] for i in range(n) for d in (1, -1)]), 'the same corners of the same kind')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c14': ('reversed',),
    'c29': ('element', 'none'),
}
