"""C13: a shape is the same shape in every coordinate space: its transform and the context's matrix act once, outermost last."""
from specs.prelude import *
import math


def path_pts(paths):
    return [p.points.tolist() for p in paths]


def looks(paths):
    """everything a path says"""
    return [(p.points.tolist(), p.closed, p.penbrush) for p in paths]


def cps_of(paths):
    """coordinates of control paths"""
    out = []
    for p in paths:
        for c in p.points:
            out.append((c.c.xy(), c.l.xy(), c.r.xy()) if isinstance(c, ControlPoint) else c.xy())
    return out


def moved(m, pts):
    return [[apply6(m, x, y) for x, y in path] for path in pts]


def moved_cps(m, items):
    return [tuple(apply6(m, *q) for q in c) if isinstance(c[0], tuple) else apply6(m, *c) for c in items]


def ident():
    return Transform()


def few(m):
    """a context with few points per curve"""
    d = DrawingContext(None, m)
    d.points_per_curve = 3
    return d


def plain(kind, k, xform=False):
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(word(k + '.name'), penbrush(k), Point(1, 2), Point(11, 9), 2, xform=tf(k + '.xf') if xform else None)
    if kind == 'OneCurve':
        return curve(k, 1, True, xform)
    if kind == 'ThreeCurve':
        return curve(k, 3, True, xform)
    return elem_of(kind, k, xform)


SIMPLE = ('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve', 'OpenCurve', 'OneCurve', 'ThreeCurve')


# ---------------------------------------------------------------------- drawing space
def case_paths_move_with_matrix(kind=SIMPLE):
    """the outline under a matrix is the matrix applied to the outline"""
    m = tf('m')
    same(path_pts(plain(kind, 'e').paths(few(m))), moved(m, path_pts(plain(kind, 'e').paths(few(ident())))), 'outline under a matrix')


def case_control_paths_move_with_matrix(kind=SIMPLE):
    m = tf('m')
    same(cps_of(plain(kind, 'e').control_paths(few(m))), moved_cps(m, cps_of(plain(kind, 'e').control_paths(few(ident())))),
         'control points under a matrix')


def case_own_transform(kind=SIMPLE):
    """a shape with a transform, seen through a matrix, is the bare shape seen through matrix after transform"""
    e, b, m = plain(kind, 'e', True), plain(kind, 'e', False), tf('m')
    both = m.copy().compose(e.xform)
    same(path_pts(e.paths(few(m))), path_pts(b.paths(few(both))), 'outline of a transformed shape')
    same(cps_of(e.control_paths(few(m))), cps_of(b.control_paths(few(both))), 'control points of a transformed shape')
    same([p.closed for p in e.paths(few(m))], [e.closed], 'the outline is closed like the shape')
    check(all(p.penbrush == e.penbrush for p in e.paths(few(m))), 'the outline has the pen and brush of the shape')


def members():
    return [elem_of('ElemRectangle', 'a', True), elem_of('ElemCurve', 'b', True), elem_of('ElemEllipse', 'c', True)]


def case_group_paths():
    """the outline of a group is those of its members, in order, under matrix after group transform"""
    m, x = tf('m'), tf('x')
    g = Group('g', penbrush('g'), False, x, {e.name: e for e in []} or dict(zip('abc', members())), None, True)
    both = m.copy().compose(x)
    want, wantc = [], []
    for e in members():
        want.extend(path_pts(e.paths(few(both))))
        wantc.extend(cps_of(e.control_paths(few(both))))
    same(path_pts(g.paths(few(m))), want, 'outlines of a group')
    same(cps_of(g.control_paths(few(m))), wantc, 'control points of a group')


def case_nested_group_paths():
    m, x, y = tf('m'), tf('x'), tf('y')
    inner = Group('k', penbrush('k'), False, y, {'a': elem_of('ElemRectangle', 'a', True)}, None, True)
    g = Group('g', penbrush('g'), False, x, {'k': inner, 'c': elem_of('ElemRectangle', 'c', True)}, None, True)
    want = [elem_of('ElemRectangle', 'a', True).paths(few(m.copy().compose(x).compose(y)))[0],
            elem_of('ElemRectangle', 'c', True).paths(few(m.copy().compose(x)))[0]]
    same(path_pts(g.paths(few(m))), path_pts(want), 'outlines of a nested group')
    want = [elem_of('ElemRectangle', 'a', True).control_paths(few(m.copy().compose(x).compose(y)))[0],
            elem_of('ElemRectangle', 'c', True).control_paths(few(m.copy().compose(x)))[0]]
    same(cps_of(g.control_paths(few(m))), cps_of(want), 'control points of a nested group')


def holed(x=True, filled=True, holes=2):
    pb = penbrush('h') if filled else PenBrush(Pen(word('h.stroke'), real('h.width')))
    return ElemWithHoles(word('h.name'), pb, elem_of('ElemCurve', 'o', True),
                         [elem_of('ElemRectangle', 'i%d' % i, True) for i in range(holes)], True, tf('x') if x else None)


def case_holes_paths(holes=(0, 1, 2, 4)):
    """a shape with holes draws its parts under matrix after its transform"""
    m, e = tf('m'), holed(True, False, holes)
    both = m.copy().compose(tf('x'))
    parts = [elem_of('ElemCurve', 'o', True)] + [elem_of('ElemRectangle', 'i%d' % i, True) for i in range(holes)]
    same(path_pts(e.paths(few(m))), [path_pts(p.paths(few(both)))[0] for p in parts], 'edges of a shape with holes')
    want = []
    for p in parts:
        want.extend(cps_of(p.control_paths(few(both))))
    same(cps_of(e.control_paths(few(m))), want, 'control points of a shape with holes')


def case_holes_filled(holes=(0, 1, 2, 6)):
    """filled: first one path for the area, made of the outside and every hole, then every edge once"""
    m, e = tf('m'), holed(True, True, holes)
    both = m.copy().compose(tf('x'))
    parts = [elem_of('ElemCurve', 'o', True)] + [elem_of('ElemRectangle', 'i%d' % i, True) for i in range(holes)]
    edges = [path_pts(p.paths(few(both)))[0] for p in parts]
    out = e.paths(few(m))
    same(path_pts(out[1:]), edges, 'edges of a filled shape with holes')
    area, start, ring = [], 0, out[0].points.tolist()
    for k in range(len(edges)):
        same(ring[start:start + len(edges[k])], edges[k], 'the area has the outline of each part')
        start += len(edges[k])
        if k:
            check(start < len(ring), 'a hole is connected back')
            start += 1
    same(start, len(ring), 'the area has nothing else')
    check(out[0].penbrush.filled and not out[0].penbrush.stroked, 'the area is filled, not stroked')
    same(out[0].penbrush.fill_color, e.penbrush.fill_color, 'the area has the fill of the shape')
    check(all(not p.penbrush.filled and p.penbrush.stroked for p in out[1:]), 'edges are stroked, not filled')
    check(all(p.penbrush.pen == e.penbrush.pen for p in out[1:]), 'edges have the pen of the shape')
    check(all(p.closed is True for p in out), 'all of it is closed')


def case_rectangle_outline():
    """a rectangle is drawn through its four corners and back"""
    e, m = elem_of('ElemRectangle', 'e', False), tf('m')
    p, q = pt('e.p1'), pt('e.p2')
    out = path_pts(e.paths(few(m)))[0]
    corners = [(p.x, p.y), (p.x, q.y), (q.x, q.y), (q.x, p.y), (p.x, p.y)]
    same(out, [apply6(m, *c) for c in corners], 'corners of a rectangle in order, closed')
    same([c.xy() for c in e.points()], corners[:4], 'points() are the four corners')
    same([(c.c.xy(), c.dl.xy(), c.dr.xy()) for c in e.make_control_points()], [(c, (0, 0), (0, 0)) for c in corners[:4]], 'control points of a rectangle')


def case_curve_outline(n=(1, 2, 3, 9), closed=(True, False)):
    """an outline starts at the first control point, passes every one in order, and ends there again when closed"""
    pb = penbrush('e') if closed else PenBrush(Pen('black'))
    if n == 1 and not closed:
        return
    e, m = ElemCurve('e', pb, [cp('c%d' % i) for i in range(n)], closed), tf('m')
    out = path_pts(e.paths(few(m)))[0]
    legs = n if closed else n - 1
    same(len(out), 3 * legs + 1, 'points per curve')
    for i in range(legs + 1):
        same(out[3 * i], apply6(m, *pt('c%d.c' % (i % n)).xy()), 'the outline passes the control points in order')


def case_ellipse_outline(swap=(False, True)):
    """the four control points of an ellipse touch its box at the middle of each side, handles along the sides"""
    cx, cy, w, h = real('cx'), real('cy'), nonneg('w'), nonneg('h')
    p, q = Point(cx - w, cy - h), Point(cx + w, cy + h)
    if swap:
        p, q = Point(q.x, p.y), Point(p.x, q.y)
    e = ElemEllipse(word('e.name'), penbrush('e'), p, q)
    cps = e.make_control_points()
    same([c.c.xy() for c in cps], [(cx + w, cy), (cx, cy - h), (cx - w, cy), (cx, cy + h)], 'the ellipse touches the middle of each side')
    for c in cps:
        same(c.dl + c.dr, Vector(0, 0), 'handles are opposite')
        same(c.dr.dot(c.c - Point(cx, cy)), 0, 'handles are tangent')
    for i in range(4):
        j = (i + 1) % 4
        a, b = cps[i], cps[j]
        r = bez([a.c, a.r, b.l, b.c], 2, True)[1]
        k = math.sqrt(2) / 2
        same(r, (cx + k * (a.c.x + b.c.x - 2 * cx), cy + k * (a.c.y + b.c.y - 2 * cy)), 'the middle of each quarter is on the ellipse')


# ---------------------------------------------------------------------- transforming shapes
MAPS = ('identity', 'move', 'scale', 'flip', 'turn', 'general')


def map_of(kind):
    """a map and its action, built so that nothing is nearly (but not exactly) zero"""
    if kind == 'identity':
        return Transform()
    if kind == 'move':
        return Transform((1, 0, real('t.c'), 0, 1, real('t.f')))
    if kind == 'scale':
        return Transform((1 + pos('t.a'), 0, real('t.c'), 0, 1 + pos('t.e'), real('t.f')))
    if kind == 'flip':
        return Transform((-1 - pos('t.a'), 0, real('t.c'), 0, 1 + pos('t.e'), real('t.f')))
    if kind == 'turn':
        return Transform((0, -1 - pos('t.b'), real('t.c'), 1 + pos('t.d'), 0, real('t.f')))
    t = Transform((1 + pos('t.a'), 1 + pos('t.b'), real('t.c'), -1 - pos('t.d'), 1 + pos('t.e'), real('t.f')))
    return t


def case_transform_curve(kind=('ElemCurve', 'OpenCurve', 'OneCurve', 'ThreeCurve'), xform=(False, True)):
    """a transformed copy looks like the shape seen through the map"""
    t, m = tf('t'), tf('m')
    e, b = plain(kind, 'e', xform), plain(kind, 'e', xform)
    both = m.copy().compose(t)
    f = e.transform(t)
    same(path_pts(f.paths(few(m))), path_pts(b.paths(few(both))), 'outline of a transformed copy')
    same(cps_of(f.control_paths(few(m))), cps_of(b.control_paths(few(both))), 'control points of a transformed copy')
    same((f.name, f.penbrush, f.closed), (b.name, b.penbrush, b.closed), 'a transformed copy keeps name, pen, brush and closing')
    check(type(f) is type(e), 'a transformed copy is of the same class')


def case_transform_corners(kind=('ElemRectangle', 'ElemEllipse'), map=MAPS, own=('none',) + MAPS[1:]):
    """shapes given by two corners: the transformed copy has the same outline seen through the map (possibly run backwards)"""
    t, m = map_of(map), tf('m')
    if map == own == 'general':
        return              # entries of the product can be anything, nearly zero too
    x = None if own == 'none' else map_of(own)
    cls = ElemRectangle if kind == 'ElemRectangle' else ElemEllipse
    e = cls('e', penbrush('e'), pt('e.p1'), pt('e.p2'), xform=x)
    f = e.transform(t)
    both = t.copy().compose(e.xform)
    corners = [(pt('e.p1').x, pt('e.p1').y), (pt('e.p1').x, pt('e.p2').y), (pt('e.p2').x, pt('e.p2').y), (pt('e.p2').x, pt('e.p1').y)]
    want = [apply6(both, *c) for c in corners]
    got = [apply6(f.xform, *c.xy()) for c in f.points()]
    same(got[0], want[0], 'first corner')
    same(got[2], want[2], 'opposite corner')
    check((got[1] == want[1] and got[3] == want[3]) or (got[1] == want[3] and got[3] == want[1]), 'other corners')
    check(type(f) is type(e), 'a transformed copy is of the same class')
    same((f.name, f.penbrush, f.closed), (e.name, e.penbrush, e.closed), 'a transformed copy keeps name, pen, brush and closing')


def case_transform_rounded(map=('identity', 'move', 'uniform', 'general', 'quarter', 'half', 'back', 'mirror', 'swap')):
    """the radius of a rounded rectangle grows with the map"""
    s = pos('t.s')
    assume(s > 1)
    turns = {'uniform': (1, 0, 0, 1), 'quarter': (0, -1, 1, 0), 'half': (-1, 0, 0, -1), 'back': (0, 1, -1, 0), 'mirror': (-1, 0, 0, 1), 'swap': (0, 1, 1, 0)}
    if map in turns:
        a, b, d, e = turns[map]
        t = Transform((a * s, b * s, real('t.c'), d * s, e * s, real('t.f')))
    else:
        t = map_of(map)
    r = pos('e.r')
    e = ElemRectangleRounded('e', penbrush('e'), pt('e.p1'), pt('e.p2'), r)
    f = e.transform(t)
    same(apply6(f.xform, *f.p1.xy()), apply6(t, *e.p1.xy()), 'first corner')
    same(apply6(f.xform, *f.p2.xy()), apply6(t, *e.p2.xy()), 'opposite corner')
    if map in turns:
        same(f.radius, r * s, 'a uniform scale scales the radius')
    else:
        same(f.radius, r, 'the radius is kept where the residual transform scales it')
    same((f.name, f.penbrush, f.closed), (e.name, e.penbrush, e.closed), 'a transformed copy keeps name, pen, brush and closing')


def case_transform_group():
    t, m = tf('t'), tf('m')
    g = Group('g', penbrush('g'), flag('hidden'), tf('x'), dict(zip('abc', members())), {'p': pt('p')}, True)
    both = m.copy().compose(t)
    want, wantc = path_pts(g.paths(few(both))), cps_of(g.control_paths(few(both)))
    f = g.transform(t)
    same(path_pts(f.paths(few(m))), want, 'outlines of a transformed group')
    same(cps_of(f.control_paths(few(m))), wantc, 'control points of a transformed group')
    same((f.name, f.penbrush, f.closed, f.hidden), (g.name, g.penbrush, g.closed, g.hidden), 'a transformed group keeps its attributes')
    same(list(f.elems), list(g.elems), 'a transformed group keeps its members')
    same(f.points, g.points, 'a transformed group keeps its points')


def case_transform_holes():
    t, m, e = tf('t'), tf('m'), holed()
    both = m.copy().compose(t)
    want, wantc = path_pts(e.paths(few(both))), cps_of(e.control_paths(few(both)))
    f = e.transform(t)
    same(path_pts(f.paths(few(m))), want, 'outline of a transformed shape with holes')
    same(cps_of(f.control_paths(few(m))), wantc, 'control points of a transformed shape with holes')
    same((f.name, f.penbrush, f.closed), (e.name, e.penbrush, e.closed), 'a transformed shape keeps its attributes')


def case_transform_twice(kind=('ElemCurve', 'OpenCurve', 'Group')):
    """transforming by one map and then another is transforming by both"""
    s, t, m = tf('s'), tf('t'), tf('m')
    e = plain(kind, 'e', False) if kind != 'Group' else Group('g', penbrush('g'), False, tf('x'), {'a': elem_of('ElemCurve', 'a', True)}, None, True)
    f = e.transform(s).transform(t)
    g = e.transform(t.copy().compose(s))
    same(path_pts(f.paths(few(m))), path_pts(g.paths(few(m))), 'one map after another')


def case_copies_look_alike(kind=SIMPLE):
    e, m = plain(kind, 'e', True), tf('m')
    same(path_pts(e.copy().paths(few(m))), path_pts(e.paths(few(m))), 'a copy looks the same')
    same(cps_of(e.copy().control_paths(few(m))), cps_of(e.control_paths(few(m))), 'a copy has the same control points')


# ---------------------------------------------------------------------- curves and walks
def case_as_curves(kind=('ElemRectangle', 'ElemEllipse', 'ElemCurve', 'OpenCurve', 'ThreeCurve')):
    """the curve of a shape is the shape seen from outside, without a transform of its own"""
    e = plain(kind, 'e', True)
    out = e.as_curves()
    same(len(out), 1, 'one curve')
    c = out[0]
    check(type(c) is ElemCurve, 'it is a curve')
    same(c.xform, Transform(), 'it has no transform')
    same((c.name, c.penbrush, c.closed), (e.name, e.penbrush, e.closed), 'it keeps name, pen, brush and closing')
    bare = plain(kind, 'e', False)
    want = [tuple(apply6(e.xform, *q.xy()) for q in (d.c, d.l, d.r)) for d in bare.as_digi_points()]
    same(cps_of(c.control_paths(few(ident()))), want, 'its control points are those of the shape, transformed once')


def case_as_curves_nested():
    x, y = tf('x'), tf('y')
    k = Group('k', penbrush('k'), False, y, {'b': elem_of('ElemRectangle', 'b', True)}, None, True)
    g = Group('g', penbrush('g'), False, x, {'a': elem_of('ElemCurve', 'a', True), 'k': k}, None, True)
    out = g.as_curves()
    same(len(out), 2, 'a curve for each member')
    a, b = elem_of('ElemCurve', 'a', False), elem_of('ElemRectangle', 'b', False)
    ta = x.copy().compose(tf('a.xf'))
    tb = x.copy().compose(y).compose(tf('b.xf'))
    same(cps_of(out[0].control_paths(few(ident()))), [tuple(apply6(ta, *q.xy()) for q in (d.c, d.l, d.r)) for d in a.as_digi_points()], 'member of a group')
    same(cps_of(out[1].control_paths(few(ident()))), [tuple(apply6(tb, *q.xy()) for q in (d.c, d.l, d.r)) for d in b.as_digi_points()], 'member of a group in a group')


def case_as_curves_holes():
    e = holed()
    out = e.as_curves()
    same(len(out), 3, 'a curve for the outside and each hole')
    parts = [elem_of('ElemCurve', 'o', False), elem_of('ElemRectangle', 'i0', False), elem_of('ElemRectangle', 'i1', False)]
    for part, c, n in zip(parts, out, ('o', 'i0', 'i1')):
        t = tf('x').compose(tf(n + '.xf'))
        same(cps_of(c.control_paths(few(ident()))), [tuple(apply6(t, *q.xy()) for q in (d.c, d.l, d.r)) for d in part.as_digi_points()], 'part of a shape with holes')


def case_as_curves_holes_group():
    """outside and holes may be groups: a curve for each member"""
    x, y = tf('x'), tf('y')
    k = Group('k', penbrush('k'), False, y, {'b': elem_of('ElemRectangle', 'b', False), 'c': elem_of('ElemCurve', 'c', False)}, None, True)
    o = Group('g', penbrush('g'), False, None, {'d': elem_of('ElemCurve', 'd', False), 'e': elem_of('ElemRectangle', 'e', False)}, None, True)
    out = ElemWithHoles('w', penbrush('w'), o, [elem_of('ElemCurve', 'f', False), k], True, x).as_curves()
    both = x.copy().compose(y)
    want = [(elem_of('ElemCurve', 'd', False), x), (elem_of('ElemRectangle', 'e', False), x), (elem_of('ElemCurve', 'f', False), x),
            (elem_of('ElemRectangle', 'b', False), both), (elem_of('ElemCurve', 'c', False), both)]
    same(len(out), len(want), 'a curve for each part')
    for c, (e, t) in zip(out, want):
        same(cps_of(c.control_paths(few(ident()))), [tuple(apply6(t, *q.xy()) for q in (d.c, d.l, d.r)) for d in e.as_digi_points()], 'where the part is')


def case_holes_paths_group(filled=(True, False)):
    m, x = tf('m'), tf('x')
    k = Group('k', penbrush('k'), False, tf('y'), {'b': elem_of('ElemRectangle', 'b', True), 'c': elem_of('ElemCurve', 'c', True)}, None, True)
    pb = PenBrush(word('edge'), word('wash') if filled else None)
    if filled:
        assume(word('wash') != '')
    e = ElemWithHoles('w', pb, elem_of('ElemCurve', 'o', True), [k, elem_of('ElemRectangle', 'f', True)], True, x)
    both = m.copy().compose(x)
    inner = both.copy().compose(tf('y'))
    parts = [(elem_of('ElemCurve', 'o', True), both), (elem_of('ElemRectangle', 'b', True), inner), (elem_of('ElemCurve', 'c', True), inner),
             (elem_of('ElemRectangle', 'f', True), both)]
    edges = [path_pts(p.paths(few(t)))[0] for p, t in parts]
    same(path_pts(e.paths(few(m))[1 if filled else 0:]), edges, 'every edge once')
    want = []
    for p, t in parts:
        want.extend(cps_of(p.control_paths(few(t))))
    same(cps_of(e.control_paths(few(m))), want, 'every control point once')


def case_walk(given=(False, True)):
    """walking a model gives every shape, in order, with the transform that holds around it"""
    x, y, m = tf('x'), tf('y'), tf('m')
    a, b, c = elem_of('ElemRectangle', 'a', True), elem_of('ElemCurve', 'b', True), elem_of('ElemEllipse', 'c', True)
    k = Group('k', penbrush('k'), False, y, {'b': b}, None, True)
    g = Group('g', penbrush('g'), False, x, {'a': a, 'k': k, 'c': c}, None, True)
    base = m.copy() if given else Transform()
    want = [base.copy().compose(x), base.copy().compose(x).compose(y), base.copy().compose(x)]
    seen = []
    for name, e, t in (g.iter_elems('r', m) if given else g.iter_elems()):
        seen.append((e, t.as_6tuple()))
    check(len(seen) == 3, 'every shape is visited once')
    check(identical(seen[0][0], a) and identical(seen[1][0], b) and identical(seen[2][0], c), 'shapes are visited in order')
    same([s[1] for s in seen], [w.as_6tuple() for w in want], 'the transform around each shape')


def case_walk_names():
    a, b, c = elem_of('ElemCurve', 'a'), elem_of('ElemCurve', 'b'), elem_of('OpenCurve', 'c')
    g = Group('g', penbrush('g'), False, None, [], None, True)
    k = Group('k', penbrush('k'), False, None, [], None, True)
    g.add('a', a)
    g.add('k', k)
    k.add('b', b)
    k.add('c', c)
    same([n for n, e, t in g.iter_elems()], ['g.a', 'g.k.b', 'g.k.c'], 'names are the paths of groups')
    same([n for n, e, t in g.iter_elems('root')], ['root.g.a', 'root.g.k.b', 'root.g.k.c'], 'names start with the given root')
    check(all(identical(g.lookup(n[2:]), e) for n, e, t in g.iter_elems()), 'names lead back to the shapes')
    same([e.name for e in g.iter_elems_transformed()], ['g.a', 'g.k'], 'the shallow walk names members')
    same([e.name for e in g.iter_elems_transformed('root')], ['root.g.a', 'root.g.k'], 'the shallow walk starts with the given root')


def case_walk_transformed(given=(False, True)):
    """the shallow walk gives each member as seen from outside"""
    x, m, o = tf('x'), tf('m'), tf('o')
    g = Group('g', penbrush('g'), False, x, {'a': elem_of('ElemCurve', 'a', True), 'b': elem_of('OpenCurve', 'b', True)}, None, True)
    base = m.copy() if given else Transform()
    out = list(g.iter_elems_transformed('r', m) if given else g.iter_elems_transformed())
    same(len(out), 2, 'each member once')
    both = o.copy().compose(base).compose(x)
    for e, f in zip((elem_of('ElemCurve', 'a', True), elem_of('OpenCurve', 'b', True)), out):
        same(path_pts(f.paths(few(o))), path_pts(e.paths(few(both))), 'outline of a walked member')


def case_walk_holes():
    e, m, o = holed(), tf('m'), tf('o')
    e.outside.name, e.inside[0].name, e.inside[1].name = 'o', 'i0', 'i1'
    e.inside = [elem_of('ElemCurve', 'i0', True), elem_of('ElemCurve', 'i1', True)]
    out = list(e.iter_elems_transformed('r', m))
    same(len(out), 3, 'each part once')
    both = o.copy().compose(m).compose(tf('x'))
    for p, f in zip(('o', 'i0', 'i1'), out):
        same(path_pts(f.paths(few(o))), path_pts(elem_of('ElemCurve', p, True).paths(few(both))), 'outline of a walked part')
    seen = [(s, t.as_6tuple()) for n, s, t in e.iter_elems('r', m)]
    check(identical(seen[0][0], e.outside) and identical(seen[1][0], e.inside[0]) and identical(seen[2][0], e.inside[1]), 'parts are visited in order')
    same([s[1] for s in seen], [m.copy().compose(tf('x')).as_6tuple()] * 3, 'the transform around each part')


# ---------------------------------------------------------------------- boxes
def case_box_of_corners(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse'), own=('none', 'identity', 'move', 'scale', 'flip', 'turn')):
    """seen from outside, the box of a shape is the box of its transformed corners"""
    x = None if own == 'none' else map_of(own)
    p, q = pt('e.p1'), pt('e.p2')
    if own in ('scale', 'flip', 'turn'):
        q = Point(p.x + nonneg('w'), p.y + nonneg('h'))
    if kind == 'ElemRectangle':
        e = ElemRectangle('e', penbrush('e'), p, q, xform=x)
    elif kind == 'ElemEllipse':
        e = ElemEllipse('e', penbrush('e'), p, q, xform=x)
    else:
        e = ElemRectangleRounded('e', penbrush('e'), p, q, pos('r'), xform=x)
    same(e.bbox_int().as_tuple(), BBox(p, q).as_tuple(), 'inside, the box spans the corners')
    (ax, ay), (bx, by) = apply6(e.xform, *p.xy()), apply6(e.xform, *q.xy())
    same(e.bbox().as_tuple(), (min(ax, bx), min(ay, by), max(ax, bx), max(ay, by)), 'outside, the box spans the images of the corners')
    same(e.center().xy(), e.bbox().center.xy(), 'the centre is that of the outer box')


def inside(b, x, y, msg):
    check(b.xl <= x and x <= b.xh and b.yl <= y and y <= b.yh, msg)


def case_box_covers_corners():
    """under any transform all four corners of the inner box are covered, and each side is touched"""
    x, y, w, h = real('x'), real('y'), nonneg('w'), nonneg('h')
    t = tf('t')
    e = ElemRectangle('e', penbrush('e'), Point(x, y), Point(x + w, y + h), xform=t)
    b = e.bbox()
    xs = [apply6(t, u, v)[0] for u in (x, x + w) for v in (y, y + h)]
    ys = [apply6(t, u, v)[1] for u in (x, x + w) for v in (y, y + h)]
    same(b.as_tuple(), (min(*xs), min(*ys), max(*xs), max(*ys)), 'the box spans the images of all four corners')


def case_box_of_curve(n=(1, 2)):
    """the box of a curve covers all control points and handle ends, and is the smallest that does"""
    e = ElemCurve('e', penbrush('e'), [cp('c%d' % i) for i in range(n)])
    pts = []
    for i in range(n):
        c = cp('c%d' % i)
        pts.extend([c.c.xy(), c.l.xy(), c.r.xy()])
    b = e.bbox_int()
    for k in range(len(pts)):
        inside(b, pts[k][0], pts[k][1], 'covered')
    same(b.xl, min([p[0] for p in pts]), 'smallest')
    same(b.yh, max([p[1] for p in pts]), 'smallest')


def case_box_of_open_curve(n=(1, 2, 3), closed=(True, False), out=tuple(range(6))):
    """an open curve too: the handles of its ends count"""
    cps = []
    for i in range(n):
        cps.append(ControlPoint(Point(10 * i, i), Vector(-1, 2), Vector(1, -2), 'smooth'))
    if out // 2 >= n:
        return
    k = pos('k')
    c = cps[out // 2]
    far = Vector(-100 - k, 100 + k)
    cps[out // 2] = ControlPoint(c.c, far, c.dr, 'smooth') if out % 2 else ControlPoint(c.c, c.dl, far, 'smooth')
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    b = e.bbox_int()
    same((b.xl, b.yh), (10 * (out // 2) - 100 - k, out // 2 + 100 + k), 'covers the far handle')
    same(e.bbox().as_tuple(), b.as_tuple(), 'the same from outside')


def case_square_corners(radius=(0, 0.0), swap=(0, 1, 2, 3)):
    """a rounded rectangle without a radius is a rectangle"""
    p, q = ((1, 2), (11, 8)) if swap in (0, 1) else ((1, 8), (11, 2))
    if swap % 2:
        p, q = q, p
    e = ElemRectangleRounded('e', penbrush('e'), Point(*p), Point(*q), radius)
    pts = path_pts(e.paths(few(Transform())))[0]
    for x, y in pts:
        check((x in (1, 11) and 2 <= y and y <= 8) or (y in (2, 8) and 1 <= x and x <= 11), 'along the sides')
    for corner in ((1, 2), (11, 2), (11, 8), (1, 8)):
        check(any(x == corner[0] and y == corner[1] for x, y in pts), 'every corner is reached')


def rect_at(k):
    return ElemRectangle(word(k), penbrush(k), Point(real(k + '.x'), real(k + '.y')), Point(real(k + '.x') + pos(k + '.w'), real(k + '.y') + pos(k + '.h')),
                         xform=Transform((1, 0, real(k + '.tx'), 0, 1, real(k + '.ty'))))


def case_box_of_group():
    """the box of a group covers its members where they are in the group"""
    a, b = rect_at('a'), rect_at('b')
    g = Group('g', penbrush('g'), flag('hidden'), Transform((1, 0, real('tx'), 0, 1, real('ty'))), {'a': a, 'b': b}, None, True)
    ba, bb_ = a.bbox(), b.bbox()
    want = (min(ba.xl, bb_.xl), min(ba.yl, bb_.yl), max(ba.xh, bb_.xh), max(ba.yh, bb_.yh))
    same(g.bbox_int().as_tuple(), want, 'inside, the box of a group spans the outer boxes of its members')
    dx, dy = real('tx'), real('ty')
    same(g.bbox().as_tuple(), (want[0] + dx, want[1] + dy, want[2] + dx, want[3] + dy), 'outside, the box is transformed once')


def case_box_of_nested_group():
    a = rect_at('a')
    k = Group('k', penbrush('k'), False, Transform((1, 0, real('k.tx'), 0, 1, real('k.ty'))), {'a': a}, None, True)
    g = Group('g', penbrush('g'), False, Transform((1, 0, real('tx'), 0, 1, real('ty'))), {'k': k}, None, True)
    w = a.bbox()
    dx, dy = real('tx') + real('k.tx'), real('ty') + real('k.ty')
    same(g.bbox().as_tuple(), (w.xl + dx, w.yl + dy, w.xh + dx, w.yh + dy), 'each transform around a shape counts once')


def case_box_of_holes():
    """the box of a shape with holes is that of its outside"""
    x, y, w, h, s = real('x'), real('y'), 4 + pos('w'), 4 + pos('h'), 1 + pos('s')
    out = ElemRectangle('o', penbrush('o'), Point(x, y), Point(x + w, y + h), xform=Transform((s, 0, real('tx'), 0, s, real('ty'))))
    hole = ElemRectangle('i', penbrush('i'), Point(x + 1, y + 1), Point(x + 2, y + 3), xform=Transform((s, 0, real('tx'), 0, s, real('ty'))))
    e = ElemWithHoles('e', penbrush('e'), out, [hole], True, Transform((1, 0, real('ux'), 0, 1, real('uy'))))
    same(e.bbox_int().as_tuple(), out.bbox().as_tuple(), 'inside: the outer box of the outside')
    b = out.bbox()
    same(e.bbox().as_tuple(), (b.xl + real('ux'), b.yl + real('uy'), b.xh + real('ux'), b.yh + real('uy')), 'outside: transformed once')


def case_box_moves_with_shape(kind=('ElemRectangle', 'ElemEllipse', 'OneCurve')):
    """moving a shape moves its box"""
    dx, dy = real('dx'), real('dy')
    e = plain(kind, 'e', False)
    a, b = e.bbox(), e.transform(Transform((1, 0, dx, 0, 1, dy))).bbox()
    same(b.as_tuple(), (a.xl + dx, a.yl + dy, a.xh + dx, a.yh + dy), 'the box moves along')


def case_box_update(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse')):
    """resizing to a box gives a shape with that box"""
    e, b = elem_of(kind, 'e', False), bb_sorted('b')
    e.bbox_int_update(b)
    same(e.bbox_int(), b, 'the shape has the new box')
    e.p1.setxy(real('x'), real('y'))
    same(b, bb_sorted('b'), 'the box itself is not the shape\'s')


def case_rotate_about_center(kind=('ElemRectangle', 'ElemCurve')):
    """a shape rotated about its centre: the original is kept, the copy is turned about the centre of its box"""
    b = GroupBuilder('b', PensByShape())
    x, y, w, h = real('x'), real('y'), pos('w'), pos('h')
    if kind == 'ElemRectangle':
        e = b.rect('e', Point(x, y), Point(x + w, y + h))
    else:
        e = b.curve('e', [ControlPoint(Point(x, y), Vector(0, 0), Vector(0, 0)), ControlPoint(Point(x + w, y + h), Vector(0, 0), Vector(0, 0))], closed=True)
    f = b.rotate_about_center(e, 30)
    c = (x + w / 2, y + h / 2)
    t = Transform().rotate_about(30, Point(*c))
    same(t.transform(*c), c, 'the centre stays')
    same([q[0] if isinstance(q[0], tuple) else q for q in cps_of(f.control_paths(few(ident())))],
         [apply6(t, *(q[0] if isinstance(q[0], tuple) else q)) for q in cps_of(e.control_paths(few(ident())))], 'every point is turned about the centre')
    check(identical(b.lookup('e'), e) and identical(b.lookup('e_r'), f), 'both are in the group')


# ---------------------------------------------------------------------- drawing context
def case_context_points():
    m = tf('m')
    assume(det_of(m) != 0)
    d = DrawingContext(None, m)
    x, y = real('x'), real('y')
    same(d.scale_pt(x, y), apply6(m, x, y), 'a model point in the image')
    same(d.unscale_pt(*d.scale_pt(x, y)), (x, y), 'and back')
    w = nonneg('w')
    same(d.stroke_width(w), m.transform_width(w), 'widths scale like the matrix says')


def case_context_set_matrix():
    m, n = tf('m'), tf('n')
    d = DrawingContext(None, m)
    d.set_matrix(n)
    x, y = real('x'), real('y')
    same(d.scale_pt(x, y), apply6(n, x, y), 'a new matrix takes effect')
    d.set_matrix(None)
    same(d.scale_pt(x, y), apply6(n, x, y), 'no matrix changes nothing')
    n.translate(1, 1)
    same(d.scale_pt(x, y), apply6(tf('n'), x, y), 'the context keeps its own')


def case_context_crop():
    """a crop box in model coordinates becomes a normalised box of pixels"""
    m = Transform((2, 0, 5, 0, -3, 7))
    a, b, c, e = integer('a'), integer('b'), integer('c'), integer('e')
    d = DrawingContext(None, m)
    xl, yl, xh, yh = d.crop_to_pixels((a, b, c, e))
    check(xl <= xh and yl <= yh, 'the pixel box is normalised')
    same((xl, yl, xh, yh), (min(2 * a, 2 * c) + 5, min(-3 * b, -3 * e) + 7, max(2 * a, 2 * c) + 5, max(-3 * b, -3 * e) + 7), 'the pixel box is the image of the crop box')


def case_deep_paths(depth=(3, 6)):
    """many levels: every transform acts, innermost first"""
    def leaf():
        return ElemRectangle('leaf', PenBrush('red'), pt('p'), pt('q'))
    e, m = leaf(), tf_scale('m')
    both = m.copy()
    for i in reversed(range(depth)):
        both.compose(tf_scale('g%d' % i))
    for i in range(depth):
        e = Group('g%d' % i, PenBrush('red'), False, tf_scale('g%d' % i), {'e': e})
    same(path_pts(e.paths(few(m))), path_pts(leaf().paths(few(both))), 'outline of a shape deep in groups')
    same(cps_of(e.control_paths(few(m))), cps_of(leaf().control_paths(few(both))), 'control points of a shape deep in groups')
    got = [(n, x, t.as_6tuple()) for n, x, t in e.iter_elems('r', m)]
    same(len(got), 1, 'one shape')
    same(got[0][2], both.as_6tuple(), 'walked with the transforms of all its groups')


def case_wide_group(n=(12,)):
    """many members: each once, in order"""
    def leaf(i):
        return ElemRectangle('e%d' % i, PenBrush('red'), Point(i, 2 * i), Point(3 * i + 1, i + 7))
    m, x = Transform((2, 0, real('m.x'), 0, 3, real('m.y'))), Transform((5, 0, real('x.x'), 0, 1, real('x.y')))
    both = m.copy().compose(x)
    g = Group('g', PenBrush('red'), False, x, {'e%d' % i: leaf(i) for i in range(n)})
    d, f = few(m), few(both)
    same(path_pts(g.paths(d)), [path_pts(leaf(i).paths(f))[0] for i in range(n)], 'outlines of many members')
    same(cps_of(g.control_paths(d)), [c for i in range(n) for c in cps_of(leaf(i).control_paths(f))], 'control points of many members')
    same([k for k, e, t in g.iter_elems('r')], ['r.g.e%d' % i for i in range(n)], 'walked in order')
    c = g.transform(m)
    same([e.name for e in c.elems.values()], ['e%d' % i for i in range(n)], 'all in a transformed copy')


# rules stated under another property whose instances are instances of this one too
# ---------------------------------------------------------------------- changed after they were looked at
def scene(which):
    """shapes that are looked at, changed and looked at again: (the whole, the part that is changed)"""
    c = ElemCurve('c', PenBrush('red', 'blue'), [ControlPoint(Point(2, 2), Vector(-1, 0), Vector(1, 0)),
                                                 ControlPoint(Point(4, 5), Vector(1, 0), Vector(-1, 1))], True, Transform().scale(1, 2))
    r = ElemRectangle('r', PenBrush('red'), Point(0, 0), Point(20, 20), xform=Transform().translate(1, 0))
    q = ElemRectangleRounded('q', PenBrush('red'), Point(2, 2), Point(11, 9), 2)
    o = ElemEllipse('o', PenBrush('red'), Point(2, 2), Point(8, 9))
    part = {'c': c, 'r': r, 'q': q, 'o': o}[which[-1]]
    if len(which) == 1:
        return part, part
    if which[0] == 'h':
        return ElemWithHoles('h', PenBrush('red', 'blue'), r, [c], xform=Transform().translate(2, 3)), part
    g = Group('g', PenBrush('red'), elems=[c, r, part] if which[-1] in 'qo' else [c, r], xform=Transform().translate(2, 3))
    if which[0] == 'g':
        return g, part
    if which[0] == 'n':
        return Group('n', PenBrush('red'), elems=[g], xform=Transform().scale(2, 2)), part


def views(e):
    out = {'box': lambda: e.bbox().as_tuple(), 'inner box': lambda: e.bbox_int().as_tuple(), 'center': lambda: e.center().xy(),
           'outline': lambda: looks(e.paths(few(ident()))), 'control points': lambda: cps_of(e.control_paths(few(ident()))),
           'curves': lambda: [[(c.c.xy(), c.l.xy(), c.r.xy()) for c in x.control_points] for x in e.as_curves()],
           'walk': lambda: [(name, x.name, m.as_6tuple() if m else None) for name, x, m in e.iter_elems()]}
    if isinstance(e, (Group, ElemWithHoles)):
        out['transformed'] = lambda: [(x.name, x.bbox().as_tuple()) for x in e.iter_elems_transformed()]
    return {k: outcome(out[k]) for k in out}


def reshape(e):
    if isinstance(e, ElemCurve):
        e.control_points[1].c.setxy(7, 3)
        e.control_points[0].dr.setxy(2, 2)
    else:
        e.p2.setxy(17, 13)


def respace(e):
    e.xform.translate(1, 2)


def rename(e):
    e.name = 'renamed'


def repaint(e):
    e.penbrush = PenBrush('green')


def replace_parts(e):
    if isinstance(e, ElemCurve):
        e.control_points = [ControlPoint(Point(5, 5), Vector(1, 1), Vector(-1, -1))]
    else:
        e.p1, e.p2 = Point(3, 3), Point(9, 12)


def other_space(e):
    e.xform = Transform().scale(0.5, 0.5)


def reradius(e):
    if isinstance(e, ElemRectangleRounded):
        e.radius = 1


def lengthen(e):
    if isinstance(e, ElemCurve):
        e.add_one()
    else:
        e.bbox_int_update(BBox(3, 3, 6, 9))


CHANGES = {'reshape': reshape, 'respace': respace, 'rename': rename, 'repaint': repaint, 'replace parts': replace_parts, 'other space': other_space,
           'radius': reradius, 'lengthen': lengthen}


def case_changed_after_a_look(which=('c', 'hc', 'gc', 'nr'), change=tuple(CHANGES)):
    """every view of a shape is of the shape as it is, whatever views were taken before"""
    e, part = scene(which)
    views(e)
    views(e)
    CHANGES[change](part)
    d, twin = scene(which)
    CHANGES[change](twin)
    got, want = views(e), views(d)
    for k in want:
        same(got[k], want[k], 'as it is now: %s' % k)


def drop(g):
    del g.elems['c']


def put(g):
    g.add('new', ElemRectangle('new', PenBrush('red'), Point(-9, -9), Point(0, 0)))


def swap(g):
    g.elems['c'] = ElemRectangle('c', PenBrush('red'), Point(-9, -9), Point(0, 0))


def swap_back(g):
    kept = g.elems['c']
    swap(g)
    views(g)
    g.elems['c'] = kept


def respace_all(g):
    g.xform.scale(3, 3)


def hide_not(g):
    g.hidden = True
    g.paths(few(ident()))
    g.hidden = False


def put_back(g):
    saved = g.copy()
    put(g)
    views(g)
    g.restore(saved)


GROUP_CHANGES = {'drop': drop, 'put': put, 'swap': swap, 'swap back': swap_back, 'respace': respace_all, 'hide': hide_not, 'put back': put_back}


def case_group_changed_after_a_look(change=tuple(GROUP_CHANGES), nested=(False, True)):
    e, _ = scene('nc' if nested else 'gc')
    d, _ = scene('nc' if nested else 'gc')
    views(e)
    GROUP_CHANGES[change](e.elems['g'] if nested else e)
    GROUP_CHANGES[change](d.elems['g'] if nested else d)
    got, want = views(e), views(d)
    for k in want:
        same(got[k], want[k], 'as it is now: %s' % k)


GUESTS = {
    'c14': ('path', 'path_loop', 'path_empty', 'path_default'),
    'c07': ('transformed', 'control_point_box', 'segment_box'),
    'c24': ('shape',),
}
