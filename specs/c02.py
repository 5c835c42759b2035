"""C02: copies and derived shapes are independent of what they were made from."""
from specs.prelude import *


def shake_tf(t):
    """change a transform in place through its public operations"""
    t.translate(real('mut.dx'), real('mut.dy'))
    t.scale(2, 3)
    t.compose(Transform((1, 2, 3, 4, 5, 6)))
    t.push()


def shake_pt(p):
    p.setxy(real('mut.x'), real('mut.y'))
    p.name = 'mut'


def shake_vec(v):
    v.setxy(real('mut.u'), real('mut.v'))


def shake_cp(c):
    shake_pt(c.c)
    shake_vec(c.dl)
    shake_vec(c.dr)
    c.kind = 'mut'


def shake_elem(e, members=True):
    """change everything that can be changed in place"""
    shake_tf(e.xform)
    if isinstance(e, ElemCurve):
        for c in e.control_points:
            shake_cp(c)
        e.control_points.append(cp('mut.cp'))
    elif isinstance(e, ElemP1P2):
        shake_pt(e.p1)
        shake_pt(e.p2)
    elif isinstance(e, Group):
        if members:
            for m in e.elems.values():
                shake_elem(m)
            for p in e.points.values():
                shake_pt(p)
        e.add('mutmut', ElemRectangle('mutmut', PenBrush('red'), pt('mut.p1'), pt('mut.p2')))
        e.add_pt('mutmut', pt('mut.p3'))
    elif isinstance(e, ElemWithHoles):
        shake_elem(e.outside)
        for m in e.inside:
            shake_elem(m)
        e.inside.append(ElemRectangle('mutmut', PenBrush('red'), pt('mut.p1'), pt('mut.p2')))
    e.name = 'mut'
    e.penbrush = PenBrush('mut')


MAKE = {
    'copy': lambda e: e.copy(),
    'transform': lambda e: e.transform(Transform((2, 0, real('k.tx'), 0, 3, real('k.ty')))),
    'transform_rotated': lambda e: e.transform(Transform((1, -1, real('k.tx'), 1, 1, real('k.ty')))),
}


def case_elem_then_change_result(kind=LEAVES + ('ElemWithHoles',), how=tuple(MAKE)):
    e = elem_of(kind, 'e', how == 'copy')
    f = MAKE[how](e)
    before = observe(e)
    shake_elem(f)
    same(observe(e), before, 'changing the result of %s leaves the original alone' % how)


def case_elem_then_change_original(kind=LEAVES + ('ElemWithHoles',), how=tuple(MAKE)):
    e = elem_of(kind, 'e', how == 'copy')
    f = MAKE[how](e)
    before = observe(f)
    shake_elem(e)
    same(observe(f), before, 'changing the original leaves the result of %s alone' % how)


def case_elem_no_shared_parts(kind=LEAVES + ('ElemWithHoles',), how=tuple(MAKE)):
    e = elem_of(kind, 'e', how == 'copy')
    f = MAKE[how](e)
    disjoint(e, f, '%s shares no changeable part' % how)
    unshared(f, 'the parts of the result of %s are separate objects' % how)


def case_transform_keeps_nothing_of_the_matrix(kind=ELEMS):
    """a transformed shape does not keep a hold on the matrix it was transformed by"""
    e, t = elem_of(kind, 'e', False), tf_scale('t')
    f = e.transform(t)
    before, tb = observe(f), observe(t)
    shake_elem(f, False)
    same(observe(t), tb, 'changing the transformed shape leaves the matrix alone')
    g = e.transform(t)
    before = observe(g)
    shake_tf(t)
    same(observe(g), before, 'changing the matrix leaves the transformed shape alone')


def open_group(k):
    """an unfilled, open group"""
    return Group(word(k + '.name'), PenBrush(word(k + '.pen')), flag(k + '.hidden'), tf(k + '.xf'),
                 {'a': elem_of('ElemRectangle', k + '.a'), 'b': elem_of('ElemCurve', k + '.b')}, {'p': pt(k + '.p')})


def case_group_container(how=('copy', 'transform', 'transform_rotated'), which=('result', 'original')):
    """the group object itself (its matrix and its tables) is independent"""
    e = open_group('e')
    f = MAKE[how](e)
    changed, kept = (f, e) if which == 'result' else (e, f)
    before = observe(kept)
    shake_elem(changed, False)
    same(observe(kept), before, 'group %s: own matrix and tables' % how)


def case_group_members(how=('copy', 'transform')):
    """the members of the group are independent too (deep copy)"""
    e = open_group('e')
    f = MAKE[how](e)
    before = observe(e)
    shake_elem(f.elems['a'])
    shake_elem(f.elems['b'])
    same(observe(e), before, 'group %s: members are independent' % how)


def case_curve_fixed():
    e = elem_of('ElemCurve', 'e')
    f = e.fixed()
    disjoint(e, f, 'fixed shares no changeable part')
    before = observe(e)
    shake_elem(f)
    same(observe(e), before, 'changing fixed() leaves the original alone')


RESHAPED = {
    'offset by nothing': lambda e: [e.offset(0)],
    'offset': lambda e: [e.offset(1)],
    'offset back': lambda e: [e.offset(-2)],
    'fixed': lambda e: [e.fixed()],
    'copy': lambda e: [e.copy()],
    'transform by nothing': lambda e: [e.transform(Transform())],
    'curves': lambda e: e.as_curves(),
    'copy of a copy': lambda e: [e.copy().copy()],
    'offset twice': lambda e: [e.offset(2).offset(-2)],
    'copy of the offset': lambda e: [e.offset(0).copy()],
}


def case_reshaped(how=tuple(RESHAPED), closed=(True, False), which=('result', 'original')):
    """a curve made from a curve is another curve, also when it has the same outline"""
    e = ElemCurve('e', PenBrush('ink'), [ControlPoint(Point(*p), Vector(*a), Vector(*b), 'smooth') for p, a, b in
                                         (((0, 0), (-3, 1), (3, -1)), ((20, 2), (1, -2), (-2, 4)), ((9, 15), (2, 2), (-2, -2)))], closed)
    out = RESHAPED[how](e)
    for f in out:
        check(not identical(e, f), 'another object')
        disjoint(e, f, 'no changeable part in common')
        changed, kept = (f, e) if which == 'result' else (e, f)
        before = observe(kept)
        shake_elem(changed)
        same(observe(kept), before, 'changing the one leaves the other alone')


def case_as_curves(kind=ELEMS):
    e = elem_flat(kind, 'e')
    before = observe(e)
    for c in e.as_curves():
        shake_elem(c)
    same(observe(e), before, 'changing as_curves() leaves the shape alone')


def case_control_paths(kind=ELEMS):
    e, d = elem_flat(kind, 'e'), dctx('d')
    before = observe(e, d)
    for path in e.control_paths(d):
        for c in path.points:
            if isinstance(c, ControlPoint):
                shake_cp(c)
            else:
                shake_pt(c)
        path.points.append(pt('mut.q'))
    same(observe(e, d), before, 'changing control_paths() leaves the shape alone')


def case_iter_elems_transformed():
    g = Group(word('g.name'), PenBrush('red'), False, None,
              {'a': elem_of('ElemRectangle', 'g.a', False), 'b': elem_of('ElemCurve', 'g.b')}, {'p': pt('g.p')})
    before = observe(g)
    for e in list(g.iter_elems_transformed('r')):
        shake_elem(e)
    same(observe(g), before, 'changing iter_elems_transformed() leaves the group alone')


def case_constructor_points(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse')):
    """shapes given two corners keep their own copies of them"""
    p1, p2 = pt('p1'), pt('p2')
    if kind == 'ElemRectangle':
        e = ElemRectangle('e', penbrush('b'), p1, p2)
    elif kind == 'ElemEllipse':
        e = ElemEllipse('e', penbrush('b'), p1, p2)
    else:
        e = ElemRectangleRounded('e', penbrush('b'), p1, p2, real('r'))
    before = observe(e)
    shake_pt(p1)
    shake_pt(p2)
    same(observe(e), before, 'moving the constructor points leaves the shape alone')
    pb = observe(p1, p2)
    shake_elem(e)
    same(observe(p1, p2), pb, 'changing the shape leaves the constructor points alone')


def case_curve_list():
    """a curve keeps its own list of control points"""
    cps = [cp('a'), cp('b')]
    e = ElemCurve('c', PenBrush('red'), cps, False)
    cps.append(cp('z'))
    check(len(e.control_points) == 2, 'adding to the caller list leaves the curve alone')
    e.control_points.append(cp('y'))
    check(len(cps) == 3, 'adding to the curve leaves the caller list alone')


def case_point(kind=POINTS, how=('copy', 'fixed', 'round', 'add', 'mid', 'neg')):
    p = point_of(kind, 'p')
    q = {'copy': lambda: p.copy(), 'fixed': lambda: p.fixed(), 'round': lambda: p.round(2), 'add': lambda: p + vec('v'),
         'mid': lambda: p.mid(pt('o')), 'neg': lambda: -p}[how]()
    before = observe(p)
    if isinstance(q, Point):
        shake_pt(q)
    elif isinstance(q, PointRelative):
        q.dx, q.dy, q.name = real('mut.x'), real('mut.y'), 'mut'
    else:
        q.scale, q.name = real('mut.x'), 'mut'
    same(observe(p), before, 'changing the result of %s leaves the point alone' % how)


def case_point_original(kind=('Point', 'NamedPoint'), how=('copy', 'fixed', 'round')):
    p = point_of(kind, 'p')
    q = {'copy': lambda: p.copy(), 'fixed': lambda: p.fixed(), 'round': lambda: p.round(2)}[how]()
    before = observe(q)
    shake_pt(p)
    same(observe(q), before, 'moving the point leaves the result of %s alone' % how)


def case_vector(kind=VECTORS, how=('copy', 'fixed', 'add', 'neg', 'mul', 'normal')):
    u = vector_of(kind, 'u')
    w = {'copy': lambda: u.copy(), 'fixed': lambda: u.fixed(), 'add': lambda: u + vec('v'), 'neg': lambda: -u,
         'mul': lambda: u * 2, 'normal': lambda: u.normal()}[how]()
    before = observe(u)
    if kind == 'Vector' or how != 'copy':
        shake_vec(w)
    same(observe(u), before, 'changing the result of %s leaves the vector alone' % how)


def case_vector_relative_copy():
    """a copied difference follows its own copies of the two points"""
    p, q = pt('p'), pt('q')
    u = VectorRelative(p, q)
    w = u.copy()
    before = observe(w)
    shake_pt(p)
    shake_pt(q)
    same(observe(w), before, 'moving the points leaves the copied difference alone')


def case_control_point_parts(how=('copy', 'fixed', 'round', 'transform', 'reversed')):
    c = cp('c')
    d = {'copy': lambda: c.copy(), 'fixed': lambda: c.fixed(), 'round': lambda: c.round(1),
         'transform': lambda: c.transform(tf('t')), 'reversed': lambda: c.reversed()}[how]()
    unshared(d, 'the parts of the result of %s are separate objects' % how)


def case_curve_parts(how=('fixed', 'as_curves', 'control_paths'), kind=LEAVES):
    e = elem_of(kind, 'e')
    if how == 'fixed':
        if kind == 'ElemCurve':
            unshared(e.fixed(), 'the parts of a fixed curve are separate objects')
    elif how == 'as_curves':
        unshared(e.as_curves(), 'the parts of curves made from a shape are separate objects')
    elif how == 'control_paths':
        unshared(e.control_paths(dctx('d')), 'the parts of control paths are separate objects')


def case_control_point(how=('copy', 'fixed', 'round', 'transform')):
    c = cp('c')
    d = {'copy': lambda: c.copy(), 'fixed': lambda: c.fixed(), 'round': lambda: c.round(2), 'transform': lambda: c.transform(tf('t'))}[how]()
    disjoint(c, d, '%s shares no changeable part' % how)
    before = observe(c)
    shake_cp(d)
    same(observe(c), before, 'changing the result of %s leaves the control point alone' % how)


def case_control_point_restore():
    c, d = cp('c'), cp('d')
    c.restore(d)
    disjoint(c, d, 'restore shares no changeable part')


def case_bbox(how=('copy', 'add_none', 'none_add', 'expand', 'round')):
    a = bb_sorted('a')
    b = {'copy': lambda: a.copy(), 'add_none': lambda: a + BBox(None), 'none_add': lambda: BBox(None) + a,
         'expand': lambda: a.expand(0), 'round': lambda: round(a, 2)}[how]()
    before = observe(a)
    b.grow(pt('mut'))
    b[0] = real('mut.z')
    same(observe(a), before, 'changing the result of %s leaves the box alone' % how)


def case_matrix_copy():
    m = Matrix([[real('a'), real('b'), real('c')], [real('d'), real('e'), real('f')], [0, 0, 1]])
    n = m.copy()
    before = observe(m)
    n.pre_dot_eq(Matrix(((1, 2, 3), (4, 5, 6), (0, 0, 1))).ndmat)
    n.post_dot_eq(m.ndmat)
    n.ndmat[0][0] = real('mut')
    same(observe(m), before, 'changing a copied matrix leaves the matrix alone')


def case_matrix_written(how=('copy', 'of the array', 'copy of copy'), which=('result', 'original')):
    """writing into the array of one matrix leaves the other alone"""
    m = Matrix([[real('a'), real('b'), real('c')], [real('d'), real('e'), real('f')], [0, 0, 1]])
    n = {'copy': lambda: m.copy(), 'of the array': lambda: Matrix(m.ndmat), 'copy of copy': lambda: m.copy().copy()}[how]()
    same(observe(n), observe(m), 'a matrix made of another is equal')
    written, other = (n, m) if which == 'result' else (m, n)
    before = observe(other)
    written.ndmat[0][0] = real('mut')
    written.ndmat[1, 2] = real('mut2')
    same(observe(other), before, 'writing into the one matrix leaves the other alone')


ROUNDED = {
    'make_control_points': lambda e: e.make_control_points(),
    'as_curves': lambda e: [c for x in e.as_curves() for c in x.control_points],
    'transform': lambda e: [e.transform(Transform()), e.copy()],
    'paths': lambda e: [p.points for p in e.paths(dctx('d'))],
    'control_paths': lambda e: [p.points for p in e.control_paths(dctx('d'))],
}


def case_rounded_results(radius=(0, 2, 5, 50), op=tuple(ROUNDED)):
    """the outline of a rounded rectangle keeps nothing of the rectangle, not even its corners where nothing is rounded"""
    e = ElemRectangleRounded('e', PenBrush('red', 'blue'), Point(1, 2), Point(11, 9), radius)
    before = observe(e)
    r = ROUNDED[op](e)
    disjoint(r, [e.p1, e.p2], 'the result has points of its own')
    if op in ('make_control_points', 'as_curves'):
        for c in r:
            shake_cp(c)
    same(observe(e), before, 'changing the result leaves the shape alone')


def case_transform_copy(how=('copy', 'set_matrix', 'compose', 'compose_outer', 'simplify', 'push'), which=('result', 'source'),
                        stacked=('', 'source', 'target', 'both', 'popped', 'inverted')):
    t = tf_inv('t')
    u = Transform()
    if stacked in ('source', 'both', 'popped'):
        t.push()
    if stacked == 'popped':
        t.pop()
    if stacked in ('target', 'both'):
        u.push()
    if stacked == 'inverted':
        t.inverse, u.inverse
    if how == 'copy':
        u = t.copy()
    elif how == 'set_matrix':
        u.set_matrix(t)
    elif how == 'compose':
        u.compose(t)
    elif how == 'compose_outer':
        u.compose_outer(t)
    elif how == 'simplify':
        u, v = t.simplify()
        shake_tf(v)
    elif how == 'push':
        before = t.as_6tuple()
        t.push().translate(3, 4).scale(2, 2).pop()
        same(t.as_6tuple(), before, 'pop brings back what push saved')
        return
    changed, kept = (u, t) if which == 'result' else (t, u)
    before = observe(kept)
    shake_tf(changed)
    same(observe(kept), before, '%s leaves two independent transforms' % how)


def case_vector_field(how=('copy', 'scaled')):
    from x7.geom.vec_field import VectorField, Mesh
    m = Mesh(BBox(0, 0, pos('w'), pos('h')), 2)
    f = VectorField(m, np_grid('vx'), np_grid('vy'))
    g = f.copy() if how == 'copy' else f.scaled(2, 3)
    before = observe(f)
    g.vx[0, 0] = real('mut.x')
    g.vy[1, 1] = real('mut.y')
    same(observe(f), before, 'changing the result of %s leaves the field alone' % how)


def np_grid(k):
    import numpy as np
    return np.array([[real(k + '00'), real(k + '01')], [real(k + '10'), real(k + '11')]])


POINT_RESULTS = {
    'add': lambda p, v, q: (p + v, v + p),
    'sub': lambda p, v, q: (p - v, p - q),
    'neg': lambda p, v, q: -p,
    'mid': lambda p, v, q: p.mid(q),
    'mid with itself': lambda p, v, q: p.mid(p),
    'round': lambda p, v, q: (round(p, 2), p.round(1)),
    'fixed': lambda p, v, q: p.fixed(),
    'v': lambda p, v, q: p.v,
    'parts': lambda p, v, q: (list(p), p.xy()),
}
VECTOR_RESULTS = {
    'add': lambda u, v, p: (u + v, u + p),
    'add to itself': lambda u, v, p: u + u,
    'sub': lambda u, v, p: (u - v, u - u),
    'mul': lambda u, v, p: (u * real('k'), real('k') * u, u / nonzero('k'), u * 1, u / 1),
    'neg': lambda u, v, p: -u,
    'round': lambda u, v, p: (round(u, 2), u.round(1)),
    'fixed': lambda u, v, p: u.fixed(),
    'copy': lambda u, v, p: u.copy(),
    'p': lambda u, v, p: u.p,
    'rotate': lambda u, v, p: (u.rotate(0), u.rotate(90), u.rotate(30)),
    'normal': lambda u, v, p: u.normal(),
    'unit': lambda u, v, p: u.unit(),
}
BOX_RESULTS = {
    'add': lambda a, b, p: (a + b, b + a, a + a),
    'add none': lambda a, b, p: (a + BBox(None), BBox(None) + a),
    'copy': lambda a, b, p: a.copy(),
    'expand': lambda a, b, p: (a.expand(real('ex'), real('ey')), a.expand(0)),
    'round': lambda a, b, p: round(a, 1),
    'corners': lambda a, b, p: (a.p1, a.p2, a.pll, a.plh, a.phl, a.phh, a.center),
    'intersection': lambda a, b, p: (a.intersection(b), b.intersection(a), a.intersection(a)),
    'transformed': lambda a, b, p: (a.transformed(tf('t')), a.transformed(Transform())),
}
LINE_RESULTS = {
    'p2': lambda l, m, p: (l.p2, l.midpoint),
    'closest': lambda l, m, p: l.closest(p),
    'closest to an end': lambda l, m, p: (l.closest(l.p1), l.closest(l.p2)),
    'intersection': lambda l, m, p: l.intersection(m),
    'bbox': lambda l, m, p: l.segment_bbox(),
}


def apart(msg, f, *given):
    try:
        got = f(*given)
    except Exception:
        return
    for g in given:
        disjoint(got, g, msg + ': the result is an object of its own')


def case_result_of_point(kind=POINTS, op=tuple(POINT_RESULTS)):
    apart('point ' + op, POINT_RESULTS[op], point_of(kind, 'p'), vec('v'), point_of(kind, 'q'))


def case_result_of_vector(kind=VECTORS, op=tuple(VECTOR_RESULTS)):
    apart('vector ' + op, VECTOR_RESULTS[op], vector_of(kind, 'u'), vector_of(kind, 'v'), pt('p'))


PLAIN = ((0, 1), (1, 0), (-1, 0), (0.6, 0.8), (0, 0), (1, 1), (2, -3))


def case_result_of_plain_vector(op=tuple(VECTOR_RESULTS), xy=PLAIN):
    """also for vectors that the operation would leave as they are"""
    apart('plain vector ' + op, VECTOR_RESULTS[op], Vector(*xy), Vector(0, 0), pt('p'))
    apart('plain vector ' + op, VECTOR_RESULTS[op], vec('u'), Vector(*xy), Point(*xy))


def case_result_of_plain_point(op=tuple(POINT_RESULTS), xy=PLAIN):
    apart('plain point ' + op, POINT_RESULTS[op], Point(*xy), Vector(0, 0), Point(0, 0))
    apart('plain point ' + op, POINT_RESULTS[op], Point(0, 0), Vector(*xy), Point(*xy))


CONTAINERS = {'dict': lambda m: {e.name: e for e in m}, 'list': lambda m: m, 'tuple': lambda m: tuple(m), 'none': lambda m: {}}


def case_group_made_from(given=tuple(CONTAINERS)):
    """a group keeps a table of members of its own, whatever it was made from"""
    members = [elem_of('ElemCurve', 'a'), elem_of('ElemEllipse', 'b')]
    members[0].name, members[1].name = 'a', 'b'
    box = CONTAINERS[given](members)
    g = Group('g', PenBrush('red'), elems=box)
    h = Group('h', PenBrush('red'), elems=box)
    was, there, n = list(h.elems), list(box), len(g.elems)
    check(g.elems is not box and g.elems is not h.elems, 'the table is not the one given')
    g.add('later', elem_of('ElemRectangle', 'c'))
    same(list(h.elems), was, 'adding to one group does not add to the other')
    same(len(box), len(there), 'nor to what both were made from')
    if isinstance(box, dict):
        box['more'] = elem_of('ElemRectangle', 'd')
        same(len(g.elems), n + 1, 'and what it was made from may go on')
        same(list(h.elems), was, 'for each of them')


def case_result_of_bbox(op=tuple(BOX_RESULTS)):
    apart('box ' + op, BOX_RESULTS[op], bb_sorted('a'), bb_sorted('b'), pt('p'))


def case_result_of_line(op=tuple(LINE_RESULTS)):
    apart('line ' + op, LINE_RESULTS[op], Line(pt('o1'), vec('d1')), Line(pt('o2'), vec('d2')), pt('p'))


def case_result_of_transform(op=('copy', 'simplify', 'points')):
    t, p = tf_inv('t'), pt('p')
    got = {'copy': lambda: t.copy(), 'simplify': lambda: t.simplify(),
           'points': lambda: (t.transform_pt(p), t.transform_pts([p]), t.untransform_pt(p))}[op]()
    disjoint(got, t, 'transform %s: the result is an object of its own' % op)
    disjoint(got, p, 'transform %s: the result is not the point given' % op)


def case_field_after_lookup(op=('copy', 'scaled', 'scaled by one', 'scaled across by one', 'normalized', 'smoothed'), looked=(False, True)):
    """whatever was looked up before, the new field has vectors of its own"""
    from x7.geom.vec_field import VectorField, Mesh
    m = Mesh(BBox(0, 0, 1, 1), 2)
    f = VectorField(m, np_grid('vx'), np_grid('vy'))
    assume(f.vx[0, 0] > 0)
    if looked:
        f.lookup(0, 0)
    g = {'copy': lambda: f.copy(), 'scaled': lambda: f.scaled(2, 3), 'scaled by one': lambda: f.scaled(1),
         'scaled across by one': lambda: f.scaled(1, 2), 'normalized': lambda: f.normalized(), 'smoothed': lambda: f.smoothed()}[op]()
    disjoint([g.vx, g.vy], [f.vx, f.vy], '%s: the new field has vectors of its own' % op)
    disjoint(g.vx, g.vy, '%s: across and up are separate' % op)
    kept = f.lookup(0, 0)
    g.vx[0, 0] = real('mut.x')
    same(f.lookup(0, 0), kept, '%s: changing the new field does not move points of the old one' % op)
    same(g.lookup(0, 0)[0], real('mut.x'), '%s: changing the new field moves points by what it says' % op)


# ---------------------------------------------------------------------- nothing inside
NOTHING = {
    'group': lambda: Group('g', PenBrush('red')),
    'group of empty list': lambda: Group('g', PenBrush('red'), elems=[], points={}),
    'group of empty tables': lambda: Group('g', penbrush('g'), False, tf('g.x'), {}, {}, True),
    'group with points only': lambda: Group('g', PenBrush('red'), elems={}, points={'p': pt('g.p')}),
    'group with members only': lambda: Group('g', PenBrush('red'), elems={'a': elem_of('ElemCurve', 'g.a')}),
    'emptied group': lambda: emptied(Group('g', PenBrush('red'), elems={'a': elem_of('ElemCurve', 'g.a')}, points={'p': pt('g.p')})),
    'no holes': lambda: ElemWithHoles('h', penbrush('h'), elem_of('ElemCurve', 'h.o'), []),
    'emptied holes': lambda: emptied(ElemWithHoles('h', penbrush('h'), elem_of('ElemCurve', 'h.o'), [elem_of('ElemEllipse', 'h.i')])),
    'no control points': lambda: ElemCurve('c', penbrush('c'), [], True),
    'emptied curve': lambda: emptied(curve('c', 2)),
    'one control point': lambda: curve('c', 1),
    'no size': lambda: ElemRectangleRounded('r', penbrush('r'), Point(0, 0), Point(0, 0), 0),
}


def emptied(e):
    """without its parts"""
    if isinstance(e, Group):
        e.elems.clear()
        e.points.clear()
    elif isinstance(e, ElemWithHoles):
        del e.inside[:]
    else:
        del e.control_points[:]
    return e


def case_nothing_inside(kind=tuple(NOTHING), how=('copy', 'transform', 'restore', 'transform by nothing'), which=('result', 'original')):
    """a shape without parts is as independent of its copies as any other"""
    e = NOTHING[kind]()
    if how == 'restore':
        f = NOTHING[kind]()
        f.restore(e)
    else:
        f = e.transform(Transform()) if how == 'transform by nothing' else MAKE[how](e)
    if not kind.endswith('only'):
        disjoint(e, f, 'without parts, %s: no shared changeable part' % how)
    changed, kept = (f, e) if which == 'result' else (e, f)
    before = observe(kept)
    shake_elem(changed, False)
    same(observe(kept), before, 'without parts, %s: independent' % how)


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c06': ('results_are_snapshots', 'vector_results_are_snapshots', 'difference_snapshots', 'shape_corners_are_snapshots'),
    'c10': ('copies', 'copy_is_fresh', 'copy_of_copy', 'set_matrix_is_fresh', 'stack_entries_are_fresh'),
    'c12': ('independence',),
    'c16': ('helpers_give_new_points',),
    'c27': ('results_are_new',),
    'c30': ('frames_apart',),
    'c15': ('offset_direction',),
}
