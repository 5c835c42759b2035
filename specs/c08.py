"""C08: boxes obey the algebra of sets."""
from specs.prelude import *


def covers(a, x, y):
    return a.xl <= x and x <= a.xh and a.yl <= y and y <= a.yh


def inside(a, x, y):
    return a.xl < x and x < a.xh and a.yl < y and y < a.yh


def case_union_laws():
    a, b = bb_sorted('a'), bb_sorted('b')
    same(a + b, b + a, 'union commutes')
    same(a + a, a, 'union with itself')
    same(a + BBox(None), a, 'nothing added')
    same(BBox(None) + a, a, 'added to nothing')
    check((BBox(None) + BBox(None)).is_none, 'nothing plus nothing is nothing')
    u = a + b
    check(u.contains(a), 'the union contains the first')
    check(u.contains(b), 'the union contains the second')
    same(u + a, u, 'absorption')
    same(u.as_tuple(), (min(a.xl, b.xl), min(a.yl, b.yl), max(a.xh, b.xh), max(a.yh, b.yh)), 'the union is the smallest covering box')


def case_union_assoc():
    a, b, c = bb_sorted('a'), bb_sorted('b'), bb_sorted('c')
    same((a + b) + c, a + (b + c), 'union associates')


def case_union_foreign():
    check(raises(TypeError, lambda: bb_sorted('a') + 1), 'box plus number is refused')
    check(raises(TypeError, lambda: bb_sorted('a') + pt('p')), 'box plus point is refused')


def case_intersection_laws():
    a, b = bb_sorted('a'), bb_sorted('b')
    i = a.intersection(b)
    j = b.intersection(a)
    same(i.is_none, j.is_none, 'intersection commutes about being none')
    disjoint_boxes = a.xl > b.xh or a.xh < b.xl or a.yl > b.yh or a.yh < b.yl
    same(i.is_none, disjoint_boxes, 'the intersection is none exactly when the boxes are apart')
    same(i == j, True, 'intersection commutes')
    if not i.is_none:
        check(i.xl <= i.xh and i.yl <= i.yh, 'the intersection is a proper box')
        check(a.contains(i), 'the first contains the intersection')
        check(b.contains(i), 'the second contains the intersection')
        same(i.as_tuple(), (max(a.xl, b.xl), max(a.yl, b.yl), min(a.xh, b.xh), min(a.yh, b.yh)), 'the intersection is the largest common box')


def case_intersection_point():
    """a point lies in the intersection exactly when it lies in both"""
    a, b, x, y = bb_sorted('a'), bb_sorted('b'), real('x'), real('y')
    i = a.intersection(b)
    if i.is_none:
        check(not (covers(a, x, y) and covers(b, x, y)), 'no common point when none')
    else:
        same(covers(i, x, y), covers(a, x, y) and covers(b, x, y), 'common points are the intersection')


def case_intersection_none():
    a = bb_sorted('a')
    check(a.intersection(BBox(None)).is_none, 'intersection with nothing')
    check(BBox(None).intersection(a).is_none, 'nothing with a box')
    check(BBox(None).intersection(BBox(None)).is_none, 'nothing with nothing')
    same(a.intersection(a), a, 'intersection with itself')


def case_contains():
    a, b = bb_sorted('a'), bb_sorted('b')
    same(a.contains(b), a.xl <= b.xl and b.xh <= a.xh and a.yl <= b.yl and b.yh <= a.yh, 'contains: all edges within')
    same(a.contains(b), a + b == a, 'contains exactly when the union is the box')
    check(a.contains(a), 'a box contains itself')
    if a.contains(b):
        i = a.intersection(b)
        check(i == b, 'contained exactly when the intersection is the other')
        check(a.area() >= b.area(), 'a contained box is not larger')
    if a.contains(b) and b.contains(a):
        check(a == b, 'mutual containment is equality')


def case_contains_transitive():
    a, b, c = bb_sorted('a'), bb_sorted('b'), bb_sorted('c')
    if a.contains(b) and b.contains(c):
        check(a.contains(c), 'containment is transitive')


def case_contains_points():
    a, b, x, y = bb_sorted('a'), bb_sorted('b'), real('x'), real('y')
    if a.contains(b) and covers(b, x, y):
        check(covers(a, x, y), 'points of a contained box are points of the box')


def case_point_predicates():
    a, p = bb_sorted('a'), pt('p')
    x, y = p.xy()
    same(a.contains_pt(p), inside(a, x, y), 'contains_pt: strictly inside')
    t = a.touches_pt(p)
    on_side = ((x == a.xl or x == a.xh) and a.yl < y and y < a.yh) or ((y == a.yl or y == a.yh) and a.xl < x and x < a.xh)
    same(t, on_side, 'touches_pt: on a side')
    check(not (a.contains_pt(p) and t), 'a point is never both inside and on a side')
    if a.contains_pt(p) or t:
        check(covers(a, x, y), 'inside or on a side implies covered')
    check(not BBox(None).contains_pt(p), 'nothing contains no point')
    check(not BBox(None).touches_pt(p), 'nothing touches no point')


def case_point_kinds(kind=POINTS):
    a, p = bb_sorted('a'), point_of(kind, 'p')
    q = Point(*p.xy())
    same(a.contains_pt(p), a.contains_pt(q), 'contains_pt depends on the place only')
    same(a.touches_pt(p), a.touches_pt(q), 'touches_pt depends on the place only')


def case_overlaps():
    a, b = bb_sorted('a'), bb_sorted('b')
    o = a.overlaps(b)
    same(o, b.overlaps(a), 'overlaps is symmetric')
    same(o, not (a.xl >= b.xh or a.xh <= b.xl or a.yl >= b.yh or a.yh <= b.yl), 'overlaps: open interiors meet')
    i = a.intersection(b)
    if o:
        check(not i.is_none, 'overlapping boxes have an intersection')
    if a.width > 0 and a.height > 0 and b.width > 0 and b.height > 0:
        same(o, not i.is_none and i.area() > 0, 'proper boxes overlap exactly when their intersection has an area')
        check(a.overlaps(a), 'a proper box overlaps itself')


def case_touches():
    a, b = bb_sorted('a'), bb_sorted('b')
    t, s = a.touches(b), a.touches_side(b)
    same(t, b.touches(a), 'touches is symmetric')
    same(s, b.touches_side(a), 'touches_side is symmetric')
    if s:
        check(t, 'sharing a side is touching')
    i = a.intersection(b)
    if t:
        check(not a.overlaps(b), 'touching boxes do not overlap')
        check(not i.is_none, 'touching boxes have common points')
        same(i.area(), 0, 'touching boxes have a common part without area')
    if a.width > 0 and a.height > 0 and b.width > 0 and b.height > 0:
        same(t, not i.is_none and not a.overlaps(b), 'proper boxes touch exactly when they meet without overlapping')
        same(s, t and (i.width > 0 or i.height > 0), 'proper boxes touch at a side exactly when they share more than a corner')


def case_none_predicates():
    a = bb_sorted('a')
    n = BBox(None)
    for x, y in ((a, n), (n, a), (n, n)):
        check(not x.touches(y), 'nothing touches nothing')
        check(not x.touches_side(y), 'nothing touches no side')
        check(raises(ValueError, x.contains, y), 'containment involving nothing is refused')
        check(raises(ValueError, x.overlaps, y), 'overlap involving nothing is refused')


def case_trichotomy():
    """proper boxes are apart, touch, or overlap - exactly one of them"""
    a = BBox((real('a.x'), real('a.y'), real('a.x') + pos('a.w'), real('a.y') + pos('a.h')))
    b = BBox((real('b.x'), real('b.y'), real('b.x') + pos('b.w'), real('b.y') + pos('b.h')))
    apart, t, o = a.intersection(b).is_none, a.touches(b), a.overlaps(b)
    check(apart or t or o, 'one of apart, touching, overlapping')
    check(not (apart and t) and not (apart and o) and not (t and o), 'only one of apart, touching, overlapping')


def case_shift():
    """moving both boxes changes no relation"""
    a, b, dx, dy = bb_sorted('a'), bb_sorted('b'), real('dx'), real('dy')
    c = BBox(a.xl + dx, a.yl + dy, a.xh + dx, a.yh + dy)
    d = BBox(b.xl + dx, b.yl + dy, b.xh + dx, b.yh + dy)
    same(c.overlaps(d), a.overlaps(b), 'overlaps is translation invariant')
    same(c.touches(d), a.touches(b), 'touches is translation invariant')
    same(c.contains(d), a.contains(b), 'contains is translation invariant')
    same((c.area(), c.width, c.height), (a.area(), a.width, a.height), 'measures are translation invariant')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c07': ('none', 'zero_edges', 'union', 'grow', 'grow_none', 'sort', 'expand', 'expand_zero', 'transformed'),
}
