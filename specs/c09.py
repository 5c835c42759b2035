"""C09: every operation on a transform is the affine map it names, composed on the documented side, and chains."""
from specs.prelude import *
import math


def mat6(a, b, c, d, e, f):
    return (a, b, c, d, e, f)


def after(m, n):
    """six numbers of: first n, then m"""
    a, b, c, d, e, f = m
    p, q, r, s, t, u = n
    return (a * p + b * s, a * q + b * t, a * r + b * u + c, d * p + e * s, d * q + e * t, d * r + e * u + f)


ID = (1, 0, 0, 0, 1, 0)


def case_identity():
    t = Transform()
    same(t.as_6tuple(), ID, 'a new transform is the identity')
    same(Transform.identity().as_6tuple(), ID, 'identity() is the identity')
    same(t.transform(real('x'), real('y')), (real('x'), real('y')), 'the identity moves nothing')
    same(tf('t').reset().as_6tuple(), ID, 'reset() gives the identity')
    check(Transform.identity() == Transform(), 'identities are equal')
    check(not disjoint_ids(Transform.identity(), Transform.identity()), 'identity() gives a new transform every time')


def disjoint_ids(a, b):
    return identical(a, b)


def case_six_numbers():
    a, b, c, d, e, f = real('a b c d e f')
    t = Transform((a, b, c, d, e, f))
    same(t.as_6tuple(), (a, b, c, d, e, f), 'the six numbers are given back')
    same(t.transform(real('x'), real('y')), (a * real('x') + b * real('y') + c, d * real('x') + e * real('y') + f),
         'the six numbers are the two rows of the affine map')
    t = Transform([a, b, c, d, e, f])
    same(t.as_6tuple(), (a, b, c, d, e, f), 'a list of six numbers works too')
    m = Matrix([[a, b, c], [d, e, f], [0, 0, 1]])
    same(m.as_tuple3x3(), ((a, b, c), (d, e, f), (0, 0, 1)), 'a matrix gives its rows back')


OPS = {
    'translate': (lambda t: t.translate(real('p'), real('q')), lambda: mat6(1, 0, real('p'), 0, 1, real('q'))),
    'scale': (lambda t: t.scale(real('p'), real('q')), lambda: mat6(real('p'), 0, 0, 0, real('q'), 0)),
    'rotate': (lambda t: t.rotate(angle('p')), lambda: rot(-angle('p'))),
    'rotate_ccw': (lambda t: t.rotate_ccw(angle('p')), lambda: rot(angle('p'))),
    'rotate_about': (lambda t: t.rotate_about(angle('p'), pt('c')), lambda: about(rot(-angle('p')), real('c.x'), real('c.y'))),
    'rotate_about_relative': (lambda t: t.rotate_about(angle('p'), point_of('PointRelative', 'r')),
                              lambda: about(rot(-angle('p')), *point_of('PointRelative', 'r').xy())),
    'compose_outer': (lambda t: t.compose_outer(tf('u')), lambda: tf('u').as_6tuple()),
    'compose_outer_matrix': (lambda t: t.compose_outer(Matrix([[real('p'), real('q'), 1], [2, real('r'), 3], [0, 0, 1]])),
                             lambda: mat6(real('p'), real('q'), 1, 2, real('r'), 3)),
    'scale_bbox': (lambda t: t.scale_bbox(box1(), box2()), lambda: fit()),
    'scale_bbox_aspect': (lambda t: t.scale_bbox(box1(), box2(), True), lambda: fit_aspect()),
}


def rot(deg):
    s, c = math.sin(math.radians(deg)), math.cos(math.radians(deg))
    return mat6(c, -s, 0, s, c, 0)


def about(m, x, y):
    return after(mat6(1, 0, x, 0, 1, y), after(m, mat6(1, 0, -x, 0, 1, -y)))


def box1():
    return BBox((real('b.x'), real('b.y'), real('b.x') + pos('b.w'), real('b.y') + pos('b.h')))


def box2():
    return BBox((real('t.x'), real('t.y'), real('t.x') + pos('t.w'), real('t.y') + pos('t.h')))


def fit():
    sx, sy = pos('t.w') / pos('b.w'), pos('t.h') / pos('b.h')
    return mat6(sx, 0, real('t.x') - sx * real('b.x'), 0, sy, real('t.y') - sy * real('b.y'))


def fit_aspect():
    s = min(pos('t.w') / pos('b.w'), pos('t.h') / pos('b.h'))
    ox, oy = (pos('t.w') - s * pos('b.w')) / 2, (pos('t.h') - s * pos('b.h')) / 2
    return mat6(s, 0, real('t.x') + ox - s * real('b.x'), 0, s, real('t.y') + oy - s * real('b.y'))


def case_op(op=tuple(OPS)):
    """the operation is applied after what the transform already does"""
    t = tf('t')
    before = t.as_6tuple()
    f, want = OPS[op]
    r = f(t)
    check(identical(r, t), '%s returns the transform itself' % op)
    same(t.as_6tuple(), after(want(), before), '%s acts after the existing map' % op)
    x, y = real('x'), real('y')
    same(t.transform(x, y), apply6(t, x, y), 'transform() is the published affine map after %s' % op)
    same(t.transform_np_pts(Transform.xy_to_np_point(x, y))[0][2], 1, 'the last row stays 0 0 1 after %s' % op)


def case_compose(other=('Transform', 'Matrix')):
    t, u = tf('t'), tf('u')
    before = t.as_6tuple()
    r = t.compose(u if other == 'Transform' else matrix_of(u))
    check(identical(r, t), 'compose returns the transform itself')
    same(t.as_6tuple(), after(before, u.as_6tuple()), 'compose acts before the existing map')
    same(u.as_6tuple(), tf('u').as_6tuple(), 'the other transform is left alone')


def case_compose_chain():
    t, u, v = tf('t'), tf('u'), tf('v')
    same(tf('t').compose(u).compose(v).as_6tuple(), tf('t').compose(tf('u').compose(v)).as_6tuple(), 'compose associates')
    same(tf('t').compose(u).as_6tuple(), tf('u').compose_outer(t).as_6tuple(), 'compose and compose_outer mirror each other')
    x, y = real('x'), real('y')
    ux, uy = u.transform(x, y)
    same(tf('t').compose(u).transform(x, y), t.transform(ux, uy), 't.compose(u) transforms by u, then by t')


def case_self_compose():
    t = tf('t')
    m = t.as_6tuple()
    t.compose(t)
    same(t.as_6tuple(), after(m, m), 'composing with itself applies it twice')
    t = tf('t')
    t.compose_outer(t)
    same(t.as_6tuple(), after(m, m), 'composing (outer) with itself applies it twice')


def case_rotate_dir():
    """positive angles of rotate() turn the x axis towards negative y; rotate_ccw is its inverse"""
    x, y, a = real('x'), real('y'), angle('p')
    same(Transform().rotate(a).rotate_ccw(a).as_6tuple(), ID, 'rotate_ccw undoes rotate')
    same(Transform().rotate(a).rotate(-a).as_6tuple(), ID, 'rotating back undoes rotate')
    same(Transform().rotate(360).as_6tuple(), ID, 'a full turn is the identity')
    same(Transform().rotate(a).rotate(angle('q')).as_6tuple(), Transform().rotate(a + angle('q')).as_6tuple(), 'rotations add')
    same(Transform().rotate_ccw(90).transform(1, 0), (0, 1), 'a counter-clockwise quarter turn takes x to y')
    same(Transform().rotate(90).transform(0, 1), (1, 0), 'a quarter turn of rotate() takes y to x')


def case_rotate_about_fixes_center(kind=POINTS):
    c = point_of(kind, 'c')
    t = Transform().rotate_about(angle('p'), c)
    same(t.transform(c.x, c.y), (c.x, c.y), 'the centre of rotation stays')
    x, y = real('x'), real('y')
    u, v = t.transform(x, y)
    same((u - c.x) * (u - c.x) + (v - c.y) * (v - c.y), (x - c.x) * (x - c.x) + (y - c.y) * (y - c.y), 'distances from the centre stay')
    same(c.xy(), point_of(kind, 'c').xy(), 'the centre object is left alone')


def case_scale_bbox_maps():
    s, d = box1(), box2()
    t = Transform().scale_bbox(s, d)
    same(t.transform(s.xl, s.yl), (d.xl, d.yl), 'the low corner goes to the low corner')
    same(t.transform(s.xh, s.yh), (d.xh, d.yh), 'the high corner goes to the high corner')
    same(s, box1(), 'start box is left alone')
    same(d, box2(), 'target box is left alone')


def case_scale_bbox_aspect():
    s, d = box1(), box2()
    t = Transform().scale_bbox(s, d, keep_aspect=True)
    sx, sy = t.as_6tuple()[0], t.as_6tuple()[4]
    same(sx, sy, 'the aspect ratio is kept')
    xl, yl = t.transform(s.xl, s.yl)
    xh, yh = t.transform(s.xh, s.yh)
    same((xl + xh, yl + yh), (d.xl + d.xh, d.yl + d.yh), 'the image is centred')
    check(xl >= d.xl and yl >= d.yl and xh <= d.xh and yh <= d.yh, 'the image fits inside the target')
    check(xh - xl == d.width or yh - yl == d.height, 'the image fills one direction')


def case_scale_vals():
    t = tf('t')
    a, b, c, d, e, f = t.as_6tuple()
    same(t.scale_vals(), (math.hypot(a, d), math.hypot(b, e)), 'scales are the lengths of the columns')
    w = real('w')
    same(t.transform_width(w), w * (math.hypot(a, d) + math.hypot(b, e)) / 2, 'widths scale by the mean of the scales')
    same(Transform().transform_width(w), w, 'the identity keeps widths')
    same(Transform().rotate(angle('p')).scale_vals(), (1, 1), 'rotation keeps lengths')
    same(tf('t').translate(real('p'), real('q')).transform_width(w), t.transform_width(w), 'translation does not change widths')


def case_canvas_fit(args=('full', 'plain')):
    w, h = real('w'), real('h')
    x, y = real('x'), real('y')
    if args == 'plain':
        t = Transform.canvas_fit((w, h))
        same(t.transform(x, y), (x, h - y), 'canvas_fit flips y')
    else:
        t = Transform.canvas_fit((w, h), real('z'), (real('zx'), real('zy')))
        same(t.transform(x, y), (x * real('z') + real('zx'), h - (y * real('z') + real('zy'))), 'canvas_fit zooms, shifts and flips y')
        same(t.transform(0, 0), (real('zx'), h - real('zy')), 'the model origin goes to the given place')


def case_simplify():
    t = tf('t')
    first, second = t.simplify()
    same(t.as_6tuple(), tf('t').as_6tuple(), 'simplify leaves the transform alone')
    x, y = real('x'), real('y')
    got = first.transform(*second.transform(x, y))
    if not t.is_simple():
        same(first.as_6tuple(), (1, 0, real('t.c'), 0, 1, real('t.f')), 'a general transform splits off its translation')


def nonsmall(x):
    return x >= 1 or x <= -1 or x == 0


def case_simplify_product(shape=('general', 'simple', 'turned')):
    """the two parts of simplify() together are the transform"""
    a, b, d, e = real('a b d e')
    c, f = real('c f')
    if shape == 'simple':
        b = d = 0
    if shape == 'turned':
        a = e = 0
    assume(nonsmall(a) and nonsmall(b) and nonsmall(d) and nonsmall(e))
    t = Transform((a, b, c, d, e, f))
    first, second = t.simplify()
    x, y = real('x'), real('y')
    same(first.transform(*second.transform(x, y)), t.transform(x, y), 'second part, then first part, is the whole')
    check(first.is_simple(), 'the first part is simple')
    if shape != 'general':
        check(t.is_simple(), 'scales and quarter turns are simple')
        same(second.as_6tuple(), ID, 'nothing is left of a simple transform')
    check(not disjoint_ids(first, t) and not disjoint_ids(second, t), 'the parts are new transforms')


SMALL = ((1e-7, 0, 3, 0, 1e-7, 4), (5, 1e-7, 0, 0, 5, 0), (5, 0, 2, 1e-9, 5, 1), (1e-8, 2, 0, 3, 0, 1), (1, 1e-5, 0, -1e-5, 1, 0), (0, 1e-7, 1, 1e-7, 0, 1))


def case_simplify_small(t=SMALL):
    """small numbers are numbers"""
    a, b, c, d, e, f = t
    w = Transform(t)
    first, second = w.simplify()
    x, y = real('x'), real('y')
    same(first.transform(*second.transform(x, y)), (a * x + b * y + c, d * x + e * y + f), 'second part, then first part, is the whole')
    same(w.is_simple(), (b == 0 and d == 0) or (a == 0 and e == 0), 'simple: axes stay axes')
    check(first.is_simple(), 'the first part is simple')


def case_is_simple():
    a, b, d, e = real('a b d e')
    assume(nonsmall(a) and nonsmall(b) and nonsmall(d) and nonsmall(e))
    t = Transform((a, b, real('c'), d, e, real('f')))
    same(t.is_simple(), (b == 0 and d == 0) or (a == 0 and e == 0), 'simple: axes stay axes')


def case_matrix_helpers_of_numbers(p=(0, 1, -2, 0.5, -1.25), q=(0, 3, 0.25, -2.5)):
    """whole numbers and fractions mixed"""
    same(Matrix(Transform.translate_mat(p, q)).as_tuple3x3(), ((1, 0, p), (0, 1, q), (0, 0, 1)), 'translate_mat of numbers')
    same(Matrix(Transform.scale_mat(p, q)).as_tuple3x3(), ((p, 0, 0), (0, q, 0), (0, 0, 1)), 'scale_mat of numbers')
    same(Transform().translate(p, q).transform(3, 4), (3 + p, 4 + q), 'moved by numbers')
    if p and q:
        same(Transform().scale(p, q).transform(3, 4), (3 * p, 4 * q), 'scaled by numbers')


def case_matrix_helpers():
    p, q = real('p q')
    same(Matrix(Transform.translate_mat(p, q)).as_tuple3x3(), ((1, 0, p), (0, 1, q), (0, 0, 1)), 'translate_mat')
    same(Matrix(Transform.scale_mat(p, q)).as_tuple3x3(), ((p, 0, 0), (0, q, 0), (0, 0, 1)), 'scale_mat')
    s, c = math.sin(p), math.cos(p)
    same(Matrix(Transform.rotate_mat(p)).as_tuple3x3(), ((c, s, 0), (-s, c, 0), (0, 0, 1)), 'rotate_mat')
    same(Matrix(Transform.rotate_mat_ccw(p)).as_tuple3x3(), ((c, -s, 0), (s, c, 0), (0, 0, 1)), 'rotate_mat_ccw')


def case_matrix_ops():
    m, n = matrix_of(tf('m')), matrix_of(tf('n'))
    m.pre_dot_eq(n.ndmat)
    same(m.as_tuple3x3()[0] + m.as_tuple3x3()[1], after(tf('n').as_6tuple(), tf('m').as_6tuple()), 'pre_dot_eq multiplies from the left')
    same(n.as_tuple3x3(), matrix_of(tf('n')).as_tuple3x3(), 'the argument is left alone')
    m = matrix_of(tf('m'))
    m.post_dot_eq(n.ndmat)
    same(m.as_tuple3x3()[0] + m.as_tuple3x3()[1], after(tf('m').as_6tuple(), tf('n').as_6tuple()), 'post_dot_eq multiplies from the right')


def case_matrix_inverse():
    t = matrix_of(tf_inv('t'))
    i = t.inverse()
    same(t.as_tuple3x3(), matrix_of(tf('t')).as_tuple3x3(), 'inverse() leaves the matrix alone')
    m = i.copy()
    m.pre_dot_eq(t.ndmat)
    same(m.as_tuple3x3(), ((1, 0, 0), (0, 1, 0), (0, 0, 1)), 'matrix times its inverse is the identity')


def case_set_matrix():
    t, u = tf('t'), tf('u')
    t.set_matrix(u)
    same(t.as_6tuple(), u.as_6tuple(), 'set_matrix takes the other map over')
    u.translate(real('p'), real('q'))
    same(t.as_6tuple(), tf('u').as_6tuple(), 'set_matrix does not follow the other afterwards')
    check(t == tf('u'), 'equality is equality of maps')


def case_points_match_single():
    t = tf('t')
    x, y = real('x'), real('y')
    p = t.transform_pt(Point(x, y))
    check(type(p) is Point, 'transform_pt gives a point')
    same(p.xy(), apply6(t, x, y), 'transform_pt is the affine map')
    same(t.transform_pt(Point(x, y), as_pt=False), apply6(t, x, y), 'transform_pt gives coordinates on request')
    same(t.transform_pt(point_of('PointRelative', 'r')).xy(), apply6(t, *point_of('PointRelative', 'r').xy()), 'relative points are moved by their place')


def case_affine_preserves():
    """midpoints stay midpoints, and parallels parallels"""
    t = tf('t')
    p, q = pt('p'), pt('q')
    same(t.transform_pt(p.mid(q)).xy(), t.transform_pt(p).mid(t.transform_pt(q)).xy(), 'midpoints map to midpoints')
    v = vec('v')
    d1 = t.transform_pt(p + v) - t.transform_pt(p)
    d2 = t.transform_pt(q + v) - t.transform_pt(q)
    same(d1.xy(), d2.xy(), 'equal displacements map to equal displacements')


# ---------------------------------------------------------------------- whatever came before
BEFORE = ('pushed', 'pushed twice', 'pushed and changed', 'popped', 'asked', 'asked and pushed', 'pushed and asked', 'scale asked', 'copied', 'in with')


def case_whatever_came_before(op=tuple(OPS), before=BEFORE):
    """an operation is the same map on a transform with a past"""
    ab = (2, 1, real('t.c'), 0, 3, real('t.f'))
    t, u = Transform(ab), Transform(ab)
    if before == 'pushed':
        t.push()
    elif before == 'pushed twice':
        t.push().push()
    elif before == 'pushed and changed':
        t = Transform((1, 0, 5, 0, 1, 7)).push()
        t.set_matrix(Transform(ab))
    elif before == 'popped':
        t.push().scale(4, 5)
        t.pop()
    elif before == 'asked':
        t.inverse
    elif before == 'asked and pushed':
        t.inverse
        t.push()
    elif before == 'pushed and asked':
        t.push()
        t.untransform(1, 2)
    elif before == 'scale asked':
        t.scale_vals(), t.is_simple(), t.simplify(), t.transform_width(2), t.as_6tuple()
    elif before == 'copied':
        t = t.copy()
    f, g = OPS[op]
    if before == 'in with':
        with t.push():
            f(t)
            got = t.as_6tuple()
            moved = t.transform(real('x'), real('y'))
        same(t.as_6tuple(), ab, 'the map before with is back')
    else:
        same(f(t), t, 'chains')
        got = t.as_6tuple()
        moved = t.transform(real('x'), real('y'))
    f(u)
    same(got, u.as_6tuple(), '%s: the same map, whatever came before' % op)
    same(moved, u.transform(real('x'), real('y')), '%s: points go to the same place, whatever came before' % op)


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c12': ('back', 'single', 'list', 'width'),
    'c10': ('general', 'batch'),
    'c13': ('rotate_about_center',),
}
