"""C07: every box a client can obtain has its low corner below its high corner, and covers what it was made from."""
from specs.prelude import *


def sorted_box(b, msg):
    check(b.xl <= b.xh, msg + ': xl <= xh')
    check(b.yl <= b.yh, msg + ': yl <= yh')


def case_construct(form=('four', 'tuple', 'points', 'relative', 'mixed')):
    x, y, u, v = real('x y u v')
    if form == 'four':
        b = BBox(x, y, u, v)
    elif form == 'tuple':
        b = BBox((x, y, u, v))
    elif form == 'points':
        b = BBox(Point(x, y), Point(u, v))
    elif form == 'relative':
        b = BBox(PointRelative(x - 1, y - 2, Point(1, 2)), Point(u, v))
    else:
        b = BBox(Point(x, y), PointCalc(PointRelative(u, v, Point(0, 0)), 1))
    sorted_box(b, form)
    same((b.xl, b.yl, b.xh, b.yh), (min(x, u), min(y, v), max(x, u), max(y, v)), '%s: the box spans both corners' % form)
    same(b, BBox(u, v, x, y), '%s: the order of the corners does not matter' % form)
    same(b, BBox(x, v, u, y), '%s: either diagonal will do' % form)
    check(not b.is_none, '%s: a box with corners is not none' % form)


def case_none():
    b = BBox(None)
    check(b.is_none, 'BBox(None) is none')
    check(b.is_empty, 'BBox(None) is empty')
    same(b.as_tuple(), (None, None, None, None), 'BBox(None) has no coordinates')
    same((b.width, b.height, b.area(), b.size()), (0, 0, 0, (0, 0)), 'BBox(None) has no size')
    for corner in (lambda: b.p1, lambda: b.p2, lambda: b.pll, lambda: b.plh, lambda: b.phl, lambda: b.phh, lambda: b.center):
        check(raises(ValueError, corner), 'corners of BBox(None) are refused')


def case_zero_edges():
    """coordinates equal to zero are coordinates"""
    for n in range(3):
        b = (BBox(0, 0, 0, 0), BBox(Point(0, 0), Point(0, 0)), BBox((0, 0, 0, 0)))[n]
        check(not b.is_none, 'the zero box is not none')
        check(b.is_empty, 'the zero box is empty')
        same(b.center.xy(), (0, 0), 'the zero box has a centre')
        same((b + BBox(1, 1, 2, 2)).as_tuple(), (0, 0, 2, 2), 'the zero box counts in unions')


def case_usage():
    check(raises(TypeError, BBox, 5), 'a single number is refused')
    check(raises(TypeError, BBox, pt('p')), 'a single point is refused')
    check(raises(TypeError, BBox, pt('p'), 5), 'point and number are refused')
    check(raises(TypeError, BBox, [1, 2, 3, 4]), 'a list is refused')


def case_union():
    a, b = bb('a'), bb('b')
    u = a + b
    sorted_box(u, 'union')
    for k in (a, b):
        check(u.xl <= k.xl and u.yl <= k.yl and k.xh <= u.xh and k.yh <= u.yh, 'the union covers both boxes')


def case_grow():
    a, p = bb_sorted('a'), pt('p')
    a.grow(p)
    sorted_box(a, 'grow')
    check(a.xl <= p.x and p.x <= a.xh and a.yl <= p.y and p.y <= a.yh, 'the grown box covers the point')
    x, y, w, h = real('a.x'), real('a.y'), nonneg('a.w'), nonneg('a.h')
    same(a.as_tuple(), (min(x, p.x), min(y, p.y), max(x + w, p.x), max(y + h, p.y)), 'growing is the smallest such box')


def case_grow_none():
    b, p, q = BBox(None), pt('p'), pt('q')
    b.grow(p)
    same(b.as_tuple(), (p.x, p.y, p.x, p.y), 'growing nothing gives the point')
    b.grow(q)
    same(b, BBox(p, q), 'growing twice gives the box of both points')
    b.grow(PointRelative(0, 0, p))
    same(b, BBox(p, q), 'growing by a covered point changes nothing')


def case_grow_order():
    a, b = BBox(None), BBox(None)
    p, q, r = pt('p'), pt('q'), pt('r')
    for k in (p, q, r):
        a.grow(k)
    for k in (r, p, q):
        b.grow(k)
    same(a, b, 'the order of growing does not matter')
    same(a, BBox(p, q) + BBox(r, r), 'growing agrees with the union')


def case_sort():
    a = bb_sorted('a')
    x, y, u, v = real('x y u v')
    a.xl, a.yl, a.xh, a.yh = x, y, u, v
    a.sort()
    same(a.as_tuple(), (min(x, u), min(y, v), max(x, u), max(y, v)), 'sort() orders edges that were set by hand')


def case_items():
    a = bb_sorted('a')
    same([a[0], a[1], a[2], a[3]], [a.xl, a.yl, a.xh, a.yh], 'the edges by number')
    same(list(a), [a.xl, a.yl, a.xh, a.yh], 'the edges in order')
    same(a.as_tuple(), (a.xl, a.yl, a.xh, a.yh), 'the edges as a tuple')
    for i in range(4):
        b = bb_sorted('a')
        b[i] = real('z')
        want = list(a)
        want[i] = real('z')
        same(list(b), want, 'setting edge %d sets that edge only' % i)


def case_expand(form=('one', 'two')):
    a = bb_sorted('a')
    ex, ey = real('ex ey')
    b = a.expand(ex, ey) if form == 'two' else a.expand(ex)
    if form == 'one':
        ey = ex
    sorted_box(b, 'expand')
    same((b.center.x, b.center.y), (a.center.x, a.center.y), 'expanding keeps the centre')
    same(b.width, max(a.width + 2 * ex, 0), 'expanding widens by twice the amount, down to nothing')
    same(b.height, max(a.height + 2 * ey, 0), 'expanding heightens by twice the amount, down to nothing')


def case_expand_zero():
    a = bb_sorted('a')
    same(a.expand(real('ex'), 0), BBox(a.expand(real('ex'), 0).xl, a.yl, a.expand(real('ex'), 0).xh, a.yh), 'a zero second amount is zero')
    same(a.expand(0), a, 'expanding by nothing changes nothing')


def case_round(n=(0, 2)):
    a = bb('a')
    same(round(a, n).as_tuple(), BBox(round(a.xl, n), round(a.yl, n), round(a.xh, n), round(a.yh, n)).as_tuple(), 'rounding rounds all edges')


def case_transformed(xf=('any', 'scale', 'turn')):
    a = bb_sorted('a')
    if xf == 'any':
        t = tf('t')
    elif xf == 'scale':
        t = tf_scale('t')
    else:
        t = Transform((0, nonzero('b'), real('c'), nonzero('d'), 0, real('f')))
    b = a.transformed(t)
    sorted_box(b, 'transformed')
    xs = [apply6(t, p.x, p.y) for p in (a.pll, a.plh, a.phl, a.phh)]
    for x, y in xs:
        check(b.xl <= x and x <= b.xh and b.yl <= y and y <= b.yh, 'the transformed box covers every transformed corner')
    same(b.as_tuple(), (min(x for x, y in xs), min(y for x, y in xs), max(x for x, y in xs), max(y for x, y in xs)),
         'the transformed box is the smallest such box')


def case_measures():
    a = bb('a')
    check(a.width >= 0, 'width is not negative')
    check(a.height >= 0, 'height is not negative')
    check(a.area() >= 0, 'area is not negative')
    same(a.area(), a.width * a.height, 'area is width times height')
    same(a.size(), (a.width, a.height), 'size is width and height')
    same(a.width, a.xh - a.xl, 'width is the distance of the sides')
    same(a.height, a.yh - a.yl, 'height is the distance of top and bottom')
    same(a.is_empty, a.width == 0 or a.height == 0, 'a box is empty exactly when it has no width or no height')
    same(a.center.xy(), ((a.xl + a.xh) / 2, (a.yl + a.yh) / 2), 'the centre is the middle')
    same((a.p1.xy(), a.p2.xy()), ((a.xl, a.yl), (a.xh, a.yh)), 'p1 is the low corner, p2 the high one')
    same((a.pll.xy(), a.plh.xy(), a.phl.xy(), a.phh.xy()), ((a.xl, a.yl), (a.xl, a.yh), (a.xh, a.yl), (a.xh, a.yh)), 'all four corners')
    for p in (a.p1, a.p2, a.pll, a.plh, a.phl, a.phh, a.center):
        check(type(p) is Point, 'corners are plain points')


def case_copy():
    a = bb('a')
    same(a.copy(), a, 'a copy has the same edges')
    same(BBox(None).copy().is_none, True, 'a copy of nothing is nothing')


def case_control_point_box():
    c = cp('c')
    b = c.bbox()
    sorted_box(b, 'control point')
    for p in (c.c, c.l, c.r):
        check(b.xl <= p.x and p.x <= b.xh and b.yl <= p.y and p.y <= b.yh, 'the box of a control point covers centre and handles')
    same(b, BBox(c.l, c.r) + BBox(c.c, c.c), 'and is the smallest such box')


def case_segment_box():
    l = Line(pt('o'), vec('d'))
    b = l.segment_bbox()
    sorted_box(b, 'segment')
    same(b, BBox(l.p1, l.p2), 'the box of a segment spans its ends')


# rules stated under another property whose instances are instances of this one too
def case_hidden_members(where=('member', 'group', 'inner', 'all'), first=(True, False), op=('bbox', 'bbox_int', 'center')):
    """hiding changes what is drawn, not how large something is"""
    def box(k, x):
        return ElemRectangle(k, PenBrush('red'), Point(x, x + 1), Point(x + 10, x + 7))

    def build(hide):
        inner = Group('inner', PenBrush('red'), hide and where in ('inner', 'all'), elems={'c': box('c', 300)})
        hid = Group('hid', PenBrush('red'), hide and where in ('member', 'all'), elems={'b': box('b', -50), 'inner': inner})
        seen = box('a', 0)
        return Group('g', PenBrush('red'), hide and where in ('group', 'all'), elems={'h': hid, 'a': seen} if first else {'a': seen, 'h': hid})
    g, h = build(True), build(False)
    if op == 'center':
        same(g.center().xy(), h.center().xy(), 'the same centre as when shown')
        same(g.center().xy(), (130, 129), 'in the middle of all members')
    else:
        same(getattr(g, op)(), getattr(h, op)(), 'the same box as when shown')
        same(getattr(g, op)(), BBox(-50, -49, 310, 307), 'a box around all members')


GUESTS = {
    'c13': ('box_of_corners', 'box_covers_corners', 'box_of_curve', 'box_of_open_curve', 'square_corners', 'box_of_group',
        'box_of_nested_group', 'box_of_holes', 'box_moves_with_shape', 'box_update', 'group_changed_after_a_look'),
    'c14': ('hull', 'curve_in_box'),
    'c08': ('contains_points', 'point_predicates'),
    'c27': ('box',),
}
