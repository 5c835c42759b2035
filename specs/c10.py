"""C10: undoing a transform always matches its current map - after every history of operations."""
from specs.prelude import *

INV_OPS = {
    'translate': lambda t: t.translate(real('p'), real('q')),
    'scale': lambda t: t.scale(nonzero('p'), nonzero('q')),
    'rotate': lambda t: t.rotate(angle('p')),
    'rotate_ccw': lambda t: t.rotate_ccw(angle('p')),
    'rotate_about': lambda t: t.rotate_about(angle('p'), pt('c')),
    'scale_bbox': lambda t: t.scale_bbox(box('b'), box('d')),
    'scale_bbox_aspect': lambda t: t.scale_bbox(box('b'), box('d'), True),
    'compose': lambda t: t.compose(small('u')),
    'compose_outer': lambda t: t.compose_outer(small('u')),
    'compose_matrix': lambda t: t.compose(matrix_of(small('u'))),
    'compose_outer_matrix': lambda t: t.compose_outer(matrix_of(small('u'))),
    'set_matrix': lambda t: t.set_matrix(small('u')),
    'reset': lambda t: t.reset(),
    'push': lambda t: t.push(),
    'push_pop': lambda t: push_pop(t),
    'with_push': lambda t: with_push(t),
    'nested_push': lambda t: nested_push(t),
}
TWO = tuple(INV_OPS)


def box(k):
    return BBox((real(k + '.x'), real(k + '.y'), real(k + '.x') + pos(k + '.w'), real(k + '.y') + pos(k + '.h')))


def small(k):
    """an invertible transform with few unknowns"""
    return Transform((nonzero(k + '.sx'), real(k + '.k'), real(k + '.tx'), 0, nonzero(k + '.sy'), real(k + '.ty')))


def push_pop(t):
    t.push()
    t.scale(nonzero('in.sx'), nonzero('in.sy'))
    t.untransform(1, 2)
    t.pop()


def with_push(t):
    with t.push().translate(real('in.x'), real('in.y')):
        t.scale(2, 3)
        t.untransform(1, 2)


def nested_push(t):
    with t.push().scale(2, 4):
        t.untransform(0, 1)
        with t.push().translate(5, 6):
            t.untransform(1, 0)
        back(t, 'inside')


def back(t, when):
    x, y = real('x'), real('y')
    u, v = t.transform(x, y)
    same(t.untransform(u, v), (x, y), 'untransform undoes transform %s' % when)
    u, v = t.untransform(x, y)
    same(t.transform(u, v), (x, y), 'transform undoes untransform %s' % when)


def case_general():
    t = tf_inv('t')
    back(t, 'of any invertible map')
    back(t, 'again, from the cache')
    p = Point(real('x'), real('y'))
    same(t.untransform_pt(t.transform_pt(p)).xy(), p.xy(), 'points come back')
    same(t.untransform_pts(t.transform_pts([(1, 2), (real('x'), real('y'))])), [(1, 2), (real('x'), real('y'))], 'lists come back')


def case_batch(n=(1, 2, 3, 20)):
    t = tf_inv('t')
    pts = [(real('x%d' % i), real('y%d' % i)) for i in range(n)]
    same(t.untransform_pts(pts), [t.untransform(x, y) for x, y in pts], 'a list is undone like its members')
    same([t.untransform_pt(Point(x, y)).xy() for x, y in pts], [t.untransform(x, y) for x, y in pts], 'points are undone like coordinates')
    same(t.untransform_pts(pts), t.untransform_pts([Point(x, y) for x, y in pts]), 'points and pairs are undone alike')


def case_after(op=TWO):
    """the inverse was looked at before the operation"""
    t = small('t')
    t.inverse
    t.untransform(real('x'), real('y'))
    INV_OPS[op](t)
    back(t, 'after ' + op)


def case_after_from_identity(op=TWO):
    """from a fresh transform whose inverse was looked at"""
    t = Transform()
    t.untransform(1, 2)
    INV_OPS[op](t)
    back(t, 'after %s of a fresh transform' % op)


def case_after_fresh(op=TWO):
    """the inverse was not looked at before"""
    t = small('t')
    INV_OPS[op](t)
    back(t, 'after ' + op)


def case_after_two(a=TWO, b=('translate', 'rotate', 'compose', 'compose_outer', 'set_matrix', 'reset', 'push_pop', 'push')):
    t = Transform((2, 1, real('t.tx'), 0, 3, real('t.ty')))
    INV_OPS[a](t)
    t.untransform(real('x'), real('y'))
    step2(t, b)
    back(t, 'after two steps')


def step2(t, b):
    if b == 'translate':
        t.translate(real('p2'), real('q2'))
    elif b == 'rotate':
        t.rotate(90)
    elif b == 'compose':
        t.compose(Transform((1, 2, 0, 0, 1, real('k2'))))
    elif b == 'compose_outer':
        t.compose_outer(Transform((1, 2, 0, 0, 1, real('k2'))))
    elif b == 'set_matrix':
        t.set_matrix(Transform((1, 2, 0, 0, 1, real('k2'))))
    elif b == 'reset':
        t.reset()
    elif b == 'push':
        t.push().translate(3, 4)
    elif b == 'push_pop':
        t.push()
        t.scale(5, 6).inverse
        t.pop()


def case_pop_restores(op=tuple(k for k in INV_OPS if k != 'push')):
    """push, inspect, change, inspect, pop: map and inverse are those before"""
    t = small('t')
    m = t.as_6tuple()
    t.push()
    t.inverse
    INV_OPS[op](t)
    t.inverse
    t.pop()
    same(t.as_6tuple(), m, 'pop brings the map back after %s' % op)
    back(t, 'after pop following ' + op)
    same(len(t.stack), 0, 'nothing stays on the stack')


def case_copy_is_fresh(op=TWO):
    t = small('t')
    t.untransform(1, 2)
    c = t.copy()
    INV_OPS[op](t)
    back(c, 'of a copy after %s of the original' % op)
    same(c.as_6tuple(), small('t').as_6tuple(), 'the copy keeps its map after %s of the original' % op)
    d = small('s')
    e = d.copy()
    e.inverse
    INV_OPS[op](d)
    back(d, 'of the original after its copy was inspected')


def case_set_matrix_is_fresh(op=TWO):
    """set_matrix takes the map over; later changes on either side do not cross"""
    t, u = Transform(), small('v')
    t.inverse
    u.inverse
    t.set_matrix(u)
    back(t, 'after set_matrix')
    INV_OPS[op](u)
    back(t, 'after %s of the donor' % op)
    same(t.as_6tuple(), small('v').as_6tuple(), 'the map stays after %s of the donor' % op)
    t2, u2 = Transform(), small('v')
    t2.set_matrix(u2)
    INV_OPS[op](t2)
    same(u2.as_6tuple(), small('v').as_6tuple(), 'the donor stays after %s' % op)
    back(u2, 'of the donor after %s' % op)


def case_stack_entries_are_fresh():
    t = small('t')
    m = t.as_6tuple()
    t.push()
    t.scale(2, 2)
    t.pop()
    same(t.as_6tuple(), m, 'a saved map is a copy')


def case_copy_of_copy():
    t = small('t')
    t.push().scale(2, 2)
    c = t.copy()
    same(c.as_6tuple(), t.as_6tuple(), 'a copy has the current map')
    same(len(c.stack), 0, 'a copy starts with an empty stack')
    c.translate(1, 1)
    t.pop()
    same(t.as_6tuple(), small('t').as_6tuple(), 'the copy does not disturb the original stack')


def case_shapes_undo(kind=LEAVES):
    """a shape's transform stays invertible through copies and restores"""
    e = elem_of(kind, 'e', False)
    e.xform.compose(small('t')).inverse
    f = e.copy()
    e.xform.translate(real('p'), real('q'))
    back(e.xform, 'of the shape')
    back(f.xform, 'of its copy')
    e.restore(f)
    back(e.xform, 'after restore')
    same(e.xform.as_6tuple(), f.xform.as_6tuple(), 'restore takes the map over')
    f.xform.scale(2, 2)
    back(e.xform, 'after restore and a change of the donor')
    back(f.xform, 'of the donor')


def case_touch_does_not_invert():
    """a transform which cannot be undone can still be used forwards"""
    t = tf('t').scale(0, 1)
    same(t.transform(real('x'), real('y'))[0], 0, 'a degenerate transform still transforms')
    same(t.push().translate(1, 2).as_6tuple()[2], 1, 'and still composes')


def case_after_three(a=TWO if TIER == 'thorough' else ('scale', 'compose', 'with_push'),
                     b=('rotate', 'compose_outer', 'set_matrix', 'push_pop', 'reset', 'translate'),
                     c=('translate', 'rotate', 'compose', 'reset')):
    t = Transform((2, 0, 1, 0, 3, real('t.ty')))
    INV_OPS[a](t)
    t.inverse
    step2(t, b)
    t.untransform(1, 1)
    step3(t, c)
    back(t, 'after three steps')


def step3(t, c):
    if c == 'translate':
        t.translate(7, 8)
    elif c == 'rotate':
        t.rotate_ccw(45)
    elif c == 'compose':
        t.compose(Transform((1, 0, 0, 5, 1, 0)))
    elif c == 'reset':
        t.reset()


STEPS = ('push', 'pop', 'ask', 'translate', 'scale', 'matrix')


def histories(first, n):
    """all sequences of n more steps which never pop more than was pushed"""
    out = []

    def more(h, depth, left):
        if not left:
            out.append(h)
            return
        for s in STEPS:
            if s == 'pop' and not depth or h[-1] == s == 'ask' or (s not in ('push', 'pop', 'ask') and h[-1] == s):
                continue
            more(h + (s,), depth + (s == 'push') - (s == 'pop'), left - 1)
    more(first, sum(1 for s in first if s == 'push') - sum(1 for s in first if s == 'pop'), n)
    return out


def walk(t, steps):
    """take the steps, keeping the books"""
    stack = []
    for i, s in enumerate(steps):
        if s == 'push':
            t.push()
            stack.append(t.as_6tuple())
        elif s == 'pop':
            t.pop()
            same(t.as_6tuple(), stack.pop(), 'the map of the matching push')
        elif s == 'ask':
            u, v = t.transform(3, 5)
            same(t.untransform(u, v), (3, 5), 'untransform undoes transform, asked on the way')
        elif s == 'translate':
            t.translate(i + 1, 2)
        elif s == 'scale':
            t.scale(2, -4)
        else:
            t.set_matrix(Transform((2, 0, i, 0, 4, 1)))


def case_all_histories(first=STEPS, second=STEPS):
    """every short history of pushes, pops, changes and questions"""
    if first == 'pop' or second == 'pop' and first != 'push' or first == second and first != 'push':
        return
    for h in histories((first, second), 3 if TIER != 'thorough' else 4):
        t = Transform((2, 0, 1, 0, 4, 3))
        walk(t, h)
        u, v = t.transform(7, 9)
        same(t.untransform(u, v), (7, 9), 'untransform undoes transform after the history')


def case_nested_histories(outer=('ask', 'none'), mid=('ask', 'none'), inner=('ask', 'none'), change=('scale', 'translate', 'matrix')):
    """three levels of pushes, each asked for its inverse or not"""
    steps = []
    for how in (outer, mid, inner):
        if how == 'ask':
            steps.append('ask')
        steps.append('push')
        steps.append(change)
    t = small('t')
    stack = []
    for i, s in enumerate(steps + ['pop', 'ask', 'translate', 'push', 'pop', 'ask', 'pop', 'scale', 'ask', 'pop', 'ask']):
        if s == 'push':
            t.push()
            stack.append(t.as_6tuple())
        elif s == 'pop':
            t.pop()
            same(t.as_6tuple(), stack.pop(), 'the map of the matching push')
        elif s == 'ask':
            same(t.untransform(*t.transform(3, 5)), (3, 5), 'untransform undoes transform at every level')
        else:
            walk(t, (s,))
    back(t, 'after nested pushes')


def case_long_history(ask=(0, 1, 2, 3), start=('fresh', 'any')):
    """a long history of pushes, operations and pops, the inverse asked for at various times"""
    t = Transform() if start == 'fresh' else small('t')
    n = 0
    seen = []
    for op in ('translate', 'push', 'scale', 'push', 'compose', 'rotate', 'push', 'translate', 'pop', 'scale', 'pop', 'push', 'compose_outer',
               'pop', 'translate', 'pop', 'scale'):
        n += 1
        if op == 'push':
            t.push()
            seen.append(t.as_6tuple())
        elif op == 'pop':
            t.pop()
            same(t.as_6tuple(), seen.pop(), 'the map of the matching push')
        elif op == 'compose':
            t.compose(Transform((1, 2, 3, 0, 1, n)))
        elif op == 'compose_outer':
            t.compose_outer(Transform((2, 0, n, 1, 1, 4)))
        elif op == 'translate':
            t.translate(real('p%d' % n), n)
        elif op == 'scale':
            t.scale(2, -n)
        else:
            t.rotate(90)
        if n % 4 == ask:
            t.untransform(1, 2)
            t.inverse
        if n in (3, 6, 8, 10, 13, 15):
            x, y = real('x'), real('y')
            same(t.untransform(*t.transform(x, y)), (x, y), 'untransform undoes transform in a long history')
    back(t, 'after a long history')


# ---------------------------------------------------------------------- two transforms
PASTS = ('', 'ask', 'push', 'ask push', 'push ask', 'push change', 'push change ask', 'ask push change', 'push pop', 'ask push change pop')
JOINS = {
    'compose': lambda t, u: t.compose(u),
    'compose_outer': lambda t, u: t.compose_outer(u),
    'set_matrix': lambda t, u: t.set_matrix(u),
}


def past(t, steps):
    for s in steps.split():
        if s == 'ask':
            t.untransform(1, 2)
        elif s == 'push':
            t.push()
        elif s == 'pop':
            t.pop()
        else:
            t.translate(3, 0)


def case_two(op=tuple(JOINS), mine=PASTS, other=PASTS):
    """an operation with another transform, both with a past"""
    t, u = Transform((2, 0, 1, 0, 4, real('ty'))), Transform((1, 1, real('ux'), 0, 2, 5))
    past(t, mine)
    past(u, other)
    kept = u.as_6tuple()
    JOINS[op](t, u)
    same(t.untransform(*t.transform(3, 5)), (3, 5), 'untransform undoes transform after %s' % op)
    same(u.untransform(*u.transform(3, 5)), (3, 5), 'and so for the argument of %s' % op)
    same(u.as_6tuple(), kept, 'which keeps its map')
    u.scale(2, 2)
    t.translate(1, 1)
    same(t.untransform(*t.transform(3, 5)), (3, 5), 'and later on, after %s' % op)
    same(u.untransform(*u.transform(3, 5)), (3, 5), 'and later on for the argument of %s' % op)


def case_copies(mine=PASTS, after=PASTS, op=('copy', 'simplify', 'set', 'with')):
    """copies of a transform with a past, and the transform they were made from"""
    t = Transform((2, 0, 1, 0, 4, real('ty')))
    past(t, mine)
    want = t.as_6tuple()
    if op == 'copy':
        c = t.copy()
    elif op == 'simplify':
        c, d = t.simplify()
        same(d.untransform(*d.transform(3, 5)), (3, 5), 'untransform undoes transform, second part')
    elif op == 'set':
        c = Transform()
        c.untransform(0, 0)
        c.set_matrix(t)
    else:
        with t.push() as c:
            same(c.untransform(*c.transform(3, 5)), (3, 5), 'untransform undoes transform, inside')
            return
    same(t.as_6tuple(), want, 'the source keeps its map')
    same(c.untransform(*c.transform(3, 5)), (3, 5), 'untransform undoes transform, for the new one')
    past(c, after)
    same(c.untransform(*c.transform(3, 5)), (3, 5), 'untransform undoes transform, for the new one later on')
    same(t.untransform(*t.transform(3, 5)), (3, 5), 'untransform undoes transform, for the old one')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c09': ('whatever_came_before',),
    'c12': ('back',),
    'c13': ('transform_twice',),
}
