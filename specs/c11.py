"""C11: drawing, transforming and walking a model leave the caller's matrix and its stack as they were - on every exit."""
from specs.prelude import *
from x7.geom.transform import EmptyStackError
from x7.geom.model import GeomInternalError
from numpy.linalg import LinAlgError


class Failing(ElemRectangle):
    """a client's shape whose every operation fails"""
    def paths(self, dc):
        raise ZeroDivisionError('client shape')

    def control_paths(self, dc):
        raise ZeroDivisionError('client shape')

    def transform(self, matrix):
        raise ZeroDivisionError('client shape')

    def iter_elems(self, root='unknown', matrix=None):
        raise ZeroDivisionError('client shape')

    def make_control_points(self):
        raise ZeroDivisionError('client shape')

    def as_digi_points(self):
        raise ZeroDivisionError('client shape')

    def bbox_int(self):
        raise ZeroDivisionError('client shape')


def failing(k):
    return Failing(word(k + '.name'), penbrush(k), pt(k + '.p1'), pt(k + '.p2'))


def saved(m):
    return (m.as_6tuple(), [s.as_tuple3x3() for s in m.stack])


def matrix(depth):
    m = tf('m')
    if depth:
        m.stack.append(Matrix([[1, 2, 3], [4, real('deep'), 6], [0, 0, 1]]))
    return m


def unchanged(m, before, msg):
    same(m.as_6tuple(), before[0], 'matrix as before ' + msg)
    same([s.as_tuple3x3() for s in m.stack], before[1], 'stack as before ' + msg)


def use(e, op, d, m):
    if op == 'paths':
        e.paths(d)
    elif op == 'control_paths':
        e.control_paths(d)
    elif op == 'transform':
        try:
            e.transform(m)
        except LinAlgError:
            pass                # a map that cannot be undone: refused, see C22
    elif op == 'draw':
        e.draw(d)
    elif op == 'draw_cps':
        d.show_cps = True
        e.draw(d)
    elif op == 'iter_elems':
        list(e.iter_elems('root', m))
    elif op == 'iter_some':
        for x in e.iter_elems('root', m):
            break
    elif op == 'iter_elems_transformed':
        try:
            list(e.iter_elems_transformed('root', m))
        except LinAlgError:
            pass
    elif op == 'iter_transformed_some':
        try:
            for x in e.iter_elems_transformed('root', m):
                break
        except LinAlgError:
            pass


SHAPE_OPS = ('paths', 'control_paths', 'transform', 'draw', 'draw_cps', 'iter_elems', 'iter_some')
NEST_OPS = SHAPE_OPS + ('iter_elems_transformed', 'iter_transformed_some')


def small(kind, k, xform=False):
    """coordinates do not matter to these rules: the rounded rectangle gets fixed ones"""
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(word(k + '.name'), penbrush(k), Point(1, 2), Point(11, 9), 2, xform=tf(k + '.xf') if xform else None)
    return elem_of(kind, k, xform)


def shapes(kind):
    if kind == 'tree':
        return Group('tree', penbrush('t'), False, tf('t.xf'),
                     {'g': elem_of('Group', 'g'), 'h': elem_of('ElemWithHoles', 'h'), 'e': elem_flat('ElemEllipse', 'e')}, None, True)
    if kind == 'empty':
        return Group('empty', penbrush('t'), False, tf('t.xf'), {}, None, True)
    return small(kind, 'e')


KINDS = LEAVES + ('OpenCurve', 'Group', 'tree', 'empty')


def case_normal(kind=KINDS, op=SHAPE_OPS, depth=(0, 1)):
    e, m = shapes(kind), matrix(depth)
    d = dctx('d', m)
    before = saved(m)
    use(e, op, d, m)
    unchanged(m, before, 'after ' + op)
    check(identical(d.matrix, m), 'the context keeps its matrix')


def case_normal_holes(op=NEST_OPS, depth=(0, 1)):
    e, m = elem_flat('ElemWithHoles', 'e'), matrix(depth)
    d = dctx('d', m)
    before = saved(m)
    use(e, op, d, m)
    unchanged(m, before, 'after ' + op)


def case_normal_group_transformed(kind=('Group', 'tree', 'empty'), op=('iter_elems_transformed', 'iter_transformed_some'), depth=(0, 1)):
    e, m = shapes(kind), matrix(depth)
    before = saved(m)
    use(e, op, dctx('d', m), m)
    unchanged(m, before, 'after ' + op)


def host(where, f):
    """a model with a failing shape somewhere"""
    if where == 'group':
        return Group('g', penbrush('g'), False, tf('g.xf'), {'a': elem_flat('ElemRectangle', 'a'), 'f': f}, None, True)
    if where == 'deep':
        return Group('g', penbrush('g'), False, tf('g.xf'), {'a': Group('k', penbrush('k'), False, tf('k.xf'), {'f': f}, None, True)}, None, True)
    if where == 'outside':
        return ElemWithHoles('h', penbrush('h'), f, [elem_flat('ElemRectangle', 'i')], True, tf('h.xf'))
    if where == 'inside':
        return ElemWithHoles('h', penbrush('h'), elem_flat('ElemRectangle', 'o'), [f], True, tf('h.xf'))
    if where == 'holes in group':
        return Group('g', penbrush('g'), False, tf('g.xf'), {'h': host('inside', f)}, None, True)
    return f


def case_failing_member(where=('group', 'deep', 'outside', 'inside', 'holes in group'),
                        op=('paths', 'control_paths', 'draw', 'draw_cps', 'iter_elems', 'iter_elems_transformed'), depth=(0, 1)):
    """a member that fails: the failure reaches the caller, the matrix is as before"""
    e, m = host(where, failing('f')), matrix(depth)
    d = dctx('d', m)
    before = saved(m)
    hit = raises(ZeroDivisionError, use, e, op, d, m)
    if op != 'iter_elems_transformed':
        check(hit, 'the failure of a member is not swallowed by ' + op)
    unchanged(m, before, 'after failing ' + op)


class BadPoint(Point):
    """a client's point that fails when moved"""
    def __iter__(self):
        raise ZeroDivisionError('client point')

    def xy(self):
        raise ZeroDivisionError('client point')


def case_failing_points(op=('paths', 'control_paths', 'transform', 'draw')):
    c = ControlPoint(pt('c'), vec('l'), vec('r'))
    e = ElemCurve('c', PenBrush('red'), [c, cp('z')], False, tf('xf'))
    c.c = None
    m = matrix(1)
    d = dctx('d', m)
    before = saved(m)
    check(raises(Exception, use, e, op, d, m), 'a broken control point is reported by ' + op)
    unchanged(m, before, 'after failing ' + op)


def case_failing_corner(kind=('ElemRectangle', 'ElemEllipse', 'ElemRectangleRounded'), op=('paths', 'control_paths', 'transform', 'draw')):
    e, m = small(kind, 'e'), matrix(1)
    e.p2 = None
    d = dctx('d', m)
    before = saved(m)
    hit = raises(Exception, use, e, op, d, m)
    check(hit or op == 'transform', 'a broken corner is reported by ' + op)
    unchanged(m, before, 'after failing ' + op)


def case_external_failure(kind=LEAVES + ('Group', 'ElemWithHoles'), op=('draw', 'draw_cps', 'paths')):
    """the imaging library fails at any call"""
    e, m = small(kind, 'e'), matrix(1)
    d = dctx('d', m)
    d.draw = opaque('canvas')
    before = saved(m)
    each_abort(lambda: use(e, op, d, m), lambda kind, where: unchanged(m, before, 'after a failure inside ' + op))


def case_abandoned_walk(kind=('Group', 'tree', 'ElemWithHoles'), op=('iter_elems', 'iter_elems_transformed')):
    """a walk may be abandoned after any element"""
    e = elem_flat(kind, 'e') if kind == 'ElemWithHoles' else shapes(kind)
    m = matrix(1)
    d = dctx('d', m)
    before = saved(m)
    each_abort(lambda: use(e, op, d, m), lambda kind, where: unchanged(m, before, 'when the walk is abandoned'))


def case_walk_thrown_into(kind=('Group', 'ElemWithHoles'), op=('iter_elems', 'iter_elems_transformed')):
    """the body of the loop over a walk fails"""
    e, m = elem_flat(kind, 'e'), matrix(1)
    before = saved(m)

    def walk():
        for x in (e.iter_elems('r', m) if op == 'iter_elems' else e.iter_elems_transformed('r', m)):
            raise ZeroDivisionError
    check(raises((ZeroDivisionError, LinAlgError), walk), 'the failure reaches the caller')
    unchanged(m, before, 'when the loop body fails')


def case_own_xform_stack(kind=KINDS[:-1] + ('ElemWithHoles',), op=SHAPE_OPS):
    """the shape's own transform is left alone too"""
    e = small(kind, 'e', True) if kind not in ('tree', 'empty') else shapes(kind)
    before = saved(e.xform)
    m = tf('m')
    use(e, op, dctx('d', m), m)
    same(saved(e.xform), before, 'own transform as before ' + op)


def case_push_pop():
    t = tf('t')
    before = saved(t)
    t.push()
    same(t.as_6tuple(), before[0], 'push keeps the map')
    same(len(t.stack), 1, 'push saves one entry')
    t.translate(real('p'), real('q')).scale(2, 3)
    t.pop()
    same(saved(t), before, 'pop brings the saved map back')
    check(raises(EmptyStackError, t.pop), 'pop without push is refused')
    same(saved(t), before, 'a refused pop changes nothing')


def case_lifo():
    t = tf('t')
    a = t.as_6tuple()
    t.push()
    t.translate(real('p'), real('q'))
    b = t.as_6tuple()
    t.push()
    t.rotate(angle('r'))
    c = t.as_6tuple()
    t.push()
    t.reset()
    t.pop()
    same(t.as_6tuple(), c, 'maps come back in reverse order (1)')
    t.pop()
    same(t.as_6tuple(), b, 'maps come back in reverse order (2)')
    t.pop()
    same(t.as_6tuple(), a, 'maps come back in reverse order (3)')
    check(raises(EmptyStackError, t.pop), 'nothing is left')


def case_with():
    t = tf('t')
    before = saved(t)
    with t.push().translate(real('p'), real('q')) as u:
        check(identical(u, t), 'the block works on the transform itself')
        same(t.as_6tuple()[2], real('t.c') + real('p'), 'changes are in force inside the block')
        with t.push().rotate(angle('r')):
            t.scale(2, 2)
        same(t.as_6tuple()[2], real('t.c') + real('p'), 'the inner block is undone')
    same(saved(t), before, 'the block is undone')


class ClientError(Exception):
    """an exception of the client's own"""


EXCEPTIONS = {'ZeroDivisionError': ZeroDivisionError, 'KeyError': KeyError, 'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit,
              'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'EmptyStackError': EmptyStackError, 'LinAlgError': LinAlgError,
              'ValueError': ValueError, 'AttributeError': AttributeError, 'AssertionError': AssertionError, 'TypeError': TypeError,
              'NotImplementedError': NotImplementedError, 'ClientError': ClientError, 'GeomInternalError': GeomInternalError}


def case_with_exception(exc=tuple(EXCEPTIONS)):
    t = tf('t')
    before = saved(t)
    E = EXCEPTIONS[exc]

    def body():
        with t.push().translate(1, 2):
            t.scale(3, 4)
            if exc == 'LinAlgError':
                raise E
            raise E('x')
    check(raises(E, body), 'a with-block does not swallow failures')
    same(saved(t), before, 'the block is undone when its body fails')


def crv_plain(k):
    return ElemCurve(k, PenBrush('red'), [cp(k + '.0', 'smooth'), cp(k + '.1', 'smooth')], True)


def case_member_exception(exc=('KeyboardInterrupt', 'SystemExit', 'StopIteration', 'EmptyStackError', 'AssertionError', 'NotImplementedError', 'ClientError',
                               'GeomInternalError'),
                          where=('deep', 'inside', 'outside'), op=('paths', 'control_paths', 'draw', 'iter_elems_transformed')):
    """whatever kind of failure a member gives"""
    E = want = EXCEPTIONS[exc]

    class Odd(Failing):
        def paths(self, dc):
            raise E('odd')

        def control_paths(self, dc):
            raise E('odd')

        def transform(self, matrix):
            raise E('odd')
    m = matrix(1)
    h = host(where, Odd('odd', PenBrush('red'), pt('o1'), pt('o2')))
    d = dctx('d', m)
    before = saved(m)
    if op == 'iter_elems_transformed':
        if where == 'deep':
            h = h.elems['a']
        if where == 'inside':
            h.outside = crv_plain('o')
        if exc == 'StopIteration':
            want = (StopIteration, RuntimeError)        # a walk is a generator
    check(raises(want, use, h, op, d, m), 'the failure reaches the caller')
    unchanged(m, before, 'when a member fails')


def case_with_early_exit(how=('return', 'break', 'continue')):
    t = tf('t')
    before = saved(t)

    def body():
        for i in range(2):
            with t.push().scale(2, 2):
                if how == 'return':
                    return 1
                if how == 'break':
                    break
                continue
    body()
    same(saved(t), before, 'the block is undone on %s' % how)


def case_enter_needs_push():
    t = tf('t')

    def body():
        with t:
            pass
    check(raises(EmptyStackError, body), 'a block without push is refused')
    same(saved(t), saved(tf('t')), 'and changes nothing')


def case_stack_is_private():
    t, u = tf('t'), Transform()
    t.push()
    same(len(u.stack), 0, 'every transform has its own stack')
    same(len(Transform().stack), 0, 'a new transform starts with an empty stack')
    same(len(t.copy().stack), 0, 'a copy starts with an empty stack')


def case_draw_space(kind=LEAVES):
    """draw_space: inside, the context maps shape coordinates; afterwards it is as before"""
    e, m = elem_flat(kind, 'e'), matrix(1)
    e.xform.compose(tf('xf'))
    d = dctx('d', m)
    before = saved(m)
    x, y = real('x'), real('y')
    with e.draw_space(d):
        same(d.matrix.transform(x, y), tf('m').transform(*tf('xf').transform(x, y)), 'shape, then context')
    unchanged(m, before, 'after draw_space')


def case_hidden_group(op=('paths', 'control_paths', 'draw')):
    g = Group('g', penbrush('g'), True, tf('xf'), {'f': failing('f')}, None, True)
    m = matrix(1)
    d = dctx('d', m)
    before = saved(m)
    use(g, op, d, m)
    unchanged(m, before, 'after %s of a hidden group' % op)


def case_two_users(kind=LEAVES):
    """two drawings in a row with one context do not influence each other"""
    e = small(kind, 'e')
    e.xform.translate(real('ex'), real('ey'))
    d = dctx('d', tf('m'))
    first = observe(e.control_paths(d))
    e.paths(d)
    same(observe(e.control_paths(d)), first, 'the second result is the first')


def chain(depth, leaf):
    """groups in groups, each with a transform and a second member"""
    e = leaf
    for i in range(depth):
        e = Group('g%d' % i, PenBrush('red'), False, tf_scale('g%d.xf' % i), {'e': e, 'r': ElemRectangle('r', PenBrush('red'), Point(0, 0), Point(i + 1, 2))})
    return e


def case_deep(op=('paths', 'control_paths', 'draw', 'draw_cps', 'iter_elems', 'iter_some'), fails=(False, True)):
    """many levels of groups, the innermost member failing or not"""
    e = chain(6, failing('f') if fails else elem_flat('ElemRectangle', 'leaf'))
    m = matrix(1)
    d = dctx('d', m)
    before, was = saved(m), observe(e)
    try:
        use(e, op, d, m)
    except ZeroDivisionError:
        check(fails, 'only the failing member fails')
    unchanged(m, before, 'after %s of a deep model' % op)
    same(observe(e), was, 'the deep model is as before')


def case_many_pushes(n=(12,)):
    t = tf('t')
    maps = []
    for i in range(n):
        maps.append(t.as_6tuple())
        t.push()
        t.translate(real('p%d' % i), i)
    same(len(t.stack), n, 'one entry per push')
    while maps:
        t.pop()
        same(t.as_6tuple(), maps.pop(), 'maps come back in reverse order, many of them')
    check(raises(EmptyStackError, t.pop), 'nothing is left of many')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c22': ('pop', 'enter'),
    'c10': ('pop_restores',),
}
