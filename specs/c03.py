"""C03: restore() brings back everything, and the restored object shares nothing with the saved one."""
from specs.prelude import *


def wreck(e):
    """change everything a caller can change on a shape, keeping its structure"""
    e.xform.translate(real('mut.dx'), real('mut.dy'))
    e.xform.compose(Transform((1, 2, 3, 4, 5, 6)))
    e.name = 'mut'
    e.closed = not e.closed
    e.penbrush = PenBrush('mut')
    if isinstance(e, ElemCurve):
        for c in e.control_points:
            c.c.setxy(real('mut.x'), real('mut.y'))
            c.dl.setxy(real('mut.u'), real('mut.v'))
            c.dr = vec('mut.dr')
            c.kind = 'mut'
    elif isinstance(e, ElemP1P2):
        e.p1.setxy(real('mut.x'), real('mut.y'))
        e.p2.setxy(real('mut.u'), real('mut.v'))
        if isinstance(e, ElemRectangleRounded):
            e.radius = real('mut.r')
    elif isinstance(e, Group):
        e.hidden = not e.hidden
        e.add('mutmut', ElemRectangle('mutmut', PenBrush('red'), pt('mut.p1'), pt('mut.p2')))
        del e.elems['a']
        e.points['p'] = pt('mut.p3')
    elif isinstance(e, ElemWithHoles):
        wreck(e.outside)
        for m in e.inside:
            wreck(m)
        e.inside.append(ElemRectangle('mutmut', PenBrush('red'), pt('mut.p1'), pt('mut.p2')))


KINDS = ELEMS + ('OpenCurve',)


def build(kind, k):
    if kind == 'Group':
        return Group(word(k + '.name'), penbrush(k), flag(k + '.hidden'), tf(k + '.xf'),
                     {'a': elem_flat('ElemRectangle', k + '.a'), 'b': elem_flat('ElemCurve', k + '.b')}, {'p': pt(k + '.p')}, True)
    return elem_of(kind, k)


def case_undo(kind=KINDS):
    """save, change anything, restore: as if nothing had happened"""
    e = build(kind, 'e')
    saved = e.copy()
    before, kept = observe(e), observe(saved)
    wreck(e)
    e.restore(saved)
    same(observe(e), before, '%s: restore(saved) brings back everything' % kind)
    same(observe(saved), kept, '%s: the saved copy is not changed by restore' % kind)
    check(e == saved, '%s: restored shape equals the saved copy' % kind)


def case_itself(kind=KINDS, changed=(False, True)):
    """restoring from itself changes nothing, and it is as usable as before"""
    e = build(kind, 'e')
    if changed:
        e.xform.translate(real('mut.dx'), real('mut.dy'))
        e.name = 'mut'
    before = observe(e)
    e.restore(e)
    same(observe(e), before, '%s: nothing changed' % kind)
    saved = e.copy()
    wreck(e)
    e.restore(saved)
    same(observe(e), before, '%s: and it can still be saved and restored' % kind)


def case_undo_twice(kind=KINDS):
    """the same saved copy can be restored any number of times"""
    e = build(kind, 'e')
    saved = e.copy()
    before = observe(e)
    wreck(e)
    e.restore(saved)
    wreck(e)
    e.restore(saved)
    same(observe(e), before, '%s: the second restore(saved) brings back everything' % kind)


def case_same_parts(kind=KINDS):
    """restore from a shape made of the very same parts: nothing is lost"""
    e, f = build(kind, 'e'), build(kind, 'f')
    if kind == 'OpenCurve':
        assume(f.closed == False)
    for part in ('control_points', 'inside', 'outside', 'elems', 'points', 'p1', 'p2'):
        if hasattr(e, part) and not callable(getattr(e, part)):
            try:
                setattr(e, part, getattr(f, part))
            except AttributeError:
                pass
    wanted = observe(f)
    e.restore(f)
    same(observe(e), wanted, '%s: restore from a shape that has the same parts' % kind)
    same(observe(f), wanted, '%s: which stays as it is' % kind)
    if kind == 'ElemWithHoles':
        wreck(f)
        same(observe(e), wanted, '%s: and they have no part in common any more' % kind)


def case_adopt(kind=KINDS):
    """restore from an unrelated shape of the same class"""
    e, f = build(kind, 'e'), build(kind, 'f')
    if kind == 'OpenCurve':
        assume(f.closed == False)
    wanted = observe(f)
    e.restore(f)
    same(observe(e), wanted, '%s: restore(other) takes over every attribute of other' % kind)
    check(e == f, '%s: after restore(other) the shapes are equal' % kind)


def case_share(kind=KINDS):
    e, f = build(kind, 'e'), build(kind, 'f')
    e.restore(f)
    wanted = observe(f)
    if kind == 'Group':
        e.xform.scale(2, 3)
        e.name = 'mut'
        e.add('mutmut', ElemRectangle('mutmut', PenBrush('red'), pt('mut.p1'), pt('mut.p2')))
        e.add_pt('mutmut', pt('mut.p3'))
        del e.elems['a']
    else:
        wreck(e)
    same(observe(f), wanted, '%s: changing the restored shape leaves the saved one alone' % kind)


def case_share_back(kind=KINDS):
    e, f = build(kind, 'e'), build(kind, 'f')
    e.restore(f)
    wanted = observe(e)
    if kind == 'Group':
        f.xform.scale(2, 3)
        f.name = 'mut'
        del f.elems['a']
        f.add_pt('mutmut', pt('mut.p3'))
    else:
        wreck(f)
    same(observe(e), wanted, '%s: changing the saved shape leaves the restored one alone' % kind)


def case_shared_xform(kind=KINDS):
    """shapes may have one transform between them: restoring one of them is about that one"""
    t = tf('t')
    saved, e = build(kind, 'e'), build(kind, 'e')
    e.xform = t
    f = ElemRectangle('f', penbrush('b'), pt('p1'), pt('p2'), xform=t)
    wanted, matrix = observe(f), observe(t)
    e.restore(saved)
    same(observe(f), wanted, '%s: another shape with the same transform stays where it is' % kind)
    same(observe(t), matrix, '%s: a transform handed in is not written to' % kind)
    same(e.xform, saved.xform, '%s: the saved transform is back' % kind)


def case_restore_drawing(kind=KINDS):
    """what is drawn after undo is what was drawn before"""
    e = build(kind, 'e')
    saved = e.copy()
    d1, d2 = dctx('d'), dctx('d')
    before = observe(e.control_paths(d1))
    wreck(e)
    e.restore(saved)
    same(observe(e.control_paths(d2)), before, '%s: control paths after restore are those before' % kind)


def case_point():
    p, q = pt('p'), point_of('PointRelative', 'q')
    want = q.xy()
    p.restore(q)
    same(p.xy(), want, 'point restore takes the coordinates')
    q.dx = real('mut')
    same(p.xy(), want, 'restored point is independent')
    r = pt('r')
    r.set(p)
    same(r.xy(), want, 'point set takes the coordinates')
    r.setxy(real('sx'), real('sy'))
    same(r.xy(), (real('sx'), real('sy')), 'setxy sets both coordinates')
    same(p.xy(), want, 'set() leaves the source alone')


def case_control_point():
    a, b = cp('a'), cp('b')
    want = observe(b)
    a.restore(b)
    same(observe(a), want, 'control point restore takes everything')
    a.c.setxy(1, 2)
    a.dl.setxy(3, 4)
    a.dr.setxy(5, 6)
    same(observe(b), want, 'the source is independent of the restored control point')


def case_control_point_undo():
    a = cp('a')
    saved = a.copy()
    want = observe(a)
    a.c.setxy(real('mx'), real('my'))
    a.dl = vec('mdl')
    a.dr.setxy(real('mu'), real('mv'))
    a.kind = 'mut'
    a.restore(saved)
    same(observe(a), want, 'control point: restore(saved) brings back everything')


def case_vector():
    u, v = vec('u'), vec('v')
    u.set(v)
    same(u, v, 'vector set takes both components')
    v.setxy(real('mx'), real('my'))
    same((u.x, u.y), (real('v.x'), real('v.y')), 'the source is independent')
    same((v.x, v.y), (real('mx'), real('my')), 'setxy sets both components')


def case_transform():
    t, u = tf('t'), tf('u')
    t.set_matrix(u)
    same(t.as_6tuple(), u.as_6tuple(), 'set_matrix takes the matrix')
    before = t.as_6tuple()
    saved = t.copy()
    t.scale(2, 3).rotate(angle('q'))
    t.set_matrix(saved)
    same(t.as_6tuple(), before, 'set_matrix(saved) brings the matrix back')
    t.reset()
    same(t, Transform(), 'reset is the identity')
    same(saved.as_6tuple(), before, 'saved matrix unchanged')


# ---------------------------------------------------------------------- large shapes
def many(kind, k):
    """shapes with many parts"""
    if kind == 'curve':
        return ElemCurve(word(k + '.name'), penbrush(k), [cp(k + '.cp%d' % i) for i in range(11)], True, tf(k + '.xf'))
    if kind == 'holes':
        return ElemWithHoles(word(k + '.name'), penbrush(k), elem_of('ElemCurve', k + '.out'),
                             [elem_flat(LEAVES[i % 4], k + '.in%d' % i) for i in range(6)], True, tf(k + '.xf'))
    return Group(word(k + '.name'), penbrush(k), flag(k + '.hidden'), tf(k + '.xf'),
                 {'abcdefghijkl'[i]: elem_flat(('ElemRectangle', 'ElemCurve', 'ElemEllipse')[i % 3], k + '.e%d' % i) for i in range(12)}, {'pqrstuvwx'[i]: pt(k + '.p%d' % i) for i in range(9)}, True)


def case_many_parts(kind=('curve', 'holes', 'group')):
    """nothing is forgotten however many parts there are"""
    e = many(kind, 'e')
    saved = e.copy()
    before, kept = observe(e), observe(saved)
    wreck(e)
    e.restore(saved)
    same(observe(e), before, '%s of many parts: restore(saved) brings back everything' % kind)
    same(observe(saved), kept, '%s of many parts: the saved copy is not changed by restore' % kind)
    check(e == saved, '%s of many parts: equals the saved copy' % kind)


def case_many_points():
    """histories of many saves: each brings back its own state"""
    p = named_pt('p')
    saves, seen = [], []
    for i in range(9):
        saves.append(p.copy())
        seen.append(p.xy())
        p.setxy(real('x%d' % i), real('y%d' % i))
    for i in (3, 8, 0, 5, 5):
        p.restore(saves[i])
        same(p.xy(), seen[i], 'the state of that save')
    for s, xy in zip(saves, seen):
        same(s.xy(), xy, 'the saves keep their states')


# ---------------------------------------------------------------------- unusual states
def odd_points(k, kind, count=2):
    """control points whose places and handles are of given kinds"""
    return [ControlPoint(point_of(kind[0], k + '.c%d' % i), vector_of(kind[1], k + '.l%d' % i), vector_of(kind[2], k + '.r%d' % i), kind='smooth')
            for i in range(count)]


def parts_in_own_pens(k):
    e = ElemWithHoles('h', penbrush(k), curve(k + '.o', 2), [elem_flat('ElemRectangle', k + '.i'), elem_flat('ElemEllipse', k + '.j')])
    e.outside.penbrush = penbrush(k + '.po')
    e.inside[0].penbrush = penbrush(k + '.pi')
    return e


def rounded(k, r):
    return ElemRectangleRounded(word(k + '.name'), penbrush(k), pt(k + '.p1'), pt(k + '.p2'), r, xform=tf(k + '.xf'))


def corners(k, a, b):
    """corners given after construction, of given kinds"""
    e = ElemRectangle('r', penbrush(k), pt(k + '.p1'), pt(k + '.p2'))
    e.p1, e.p2 = point_of(a, k + '.q1'), point_of(b, k + '.q2')
    return e


KIND3 = (('Point', 'Vector', 'Vector'), ('PointRelative', 'Vector', 'VectorRelative'),
         ('PointCalc', 'VectorRelative', 'Vector'))
STATES = {
    'no radius': lambda k: rounded(k, 0),
    'any radius': lambda k: rounded(k, real(k + '.r')),
    'radius 2': lambda k: rounded(k, 2),
    'own pens': parts_in_own_pens,
    'no holes': lambda k: ElemWithHoles('', PenBrush(''), curve(k + '.o', 2), []),
    'no group members': lambda k: Group('', PenBrush(''), False, None, {}, {}),
    'hidden group': lambda k: Group('g', penbrush(k), True, tf(k + '.xf'), {}, {'p': pt(k + '.p')}, True),
    'at nothing': lambda k: ElemRectangle('', PenBrush(''), Point(0, 0), Point(0, 0)),
    'placed': lambda k: ElemRectangle('r', penbrush(k), pt(k + '.p1'), pt(k + '.p2'), xform=tf(k + '.xf')),
}
for i, ks in enumerate(KIND3):
    STATES['control points %d' % i] = lambda k, ks=ks: ElemCurve('c', penbrush(k), odd_points(k, ks), True)
ALIKE = (('no radius', 'any radius', 'radius 2'), ('own pens', 'no holes'),
         ('control points 0', 'control points 1', 'control points 2'),
         ('no group members', 'hidden group'),
         ('at nothing', 'placed'))


def case_from_state_to_state(states=ALIKE):
    """from any state to any other of the same class: everything is taken over, and again from there"""
    for now in states:
        for then in states:
            e, f = STATES[now]('e'), STATES[then]('f')
            wanted = observe(f)
            e.restore(f)
            same(observe(e), wanted, 'restore takes over every attribute')
            same(observe(f), wanted, 'and leaves the saved shape')
            if not isinstance(e, Group) and not then.startswith('control points'):
                disjoint(e, f, 'restore shares nothing')


def case_control_points_of_kinds(now=KIND3, then=KIND3):
    """the place of a saved control point is back as it was, relative or not"""
    e, f = odd_points('e', now, 1)[0], odd_points('f', then, 1)[0]
    wanted = observe(f)
    e.restore(f)
    same(observe(e), wanted, 'control point: restore takes over every attribute')
    same(observe(f), wanted, 'control point: the saved one is left')
    check(type(e.c) is type(f.c), 'control point: a place of the same kind')


def case_corners_of_kinds(a=('Point', 'PointRelative', 'NamedPoint'), b=('Point', 'PointCalc')):
    """corners that were relative when saved are where they were"""
    e, f = corners('e', 'Point', 'Point'), corners('f', a, b)
    wanted = observe(f)
    want = (f.p1.xy(), f.p2.xy())
    e.restore(f)
    same((e.p1.xy(), e.p2.xy()), want, 'corners as saved')
    same(observe(f), wanted, 'the saved shape is left')
    e.p1.setxy(1, 2)
    e.p2.setxy(3, 4)
    same(observe(f), wanted, 'and independent')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c22': ('restore_curve',),
}
