"""C22: an operation that refuses, or fails, changes nothing it was given."""
from specs.prelude import *
from specs.c18 import case_morph_refused
from specs.c21 import rect, crv, curve_named, holes, group, shape, tree, small, pens, KINDS
from x7.geom.model import GroupBuilder, GeomInternalError
from x7.geom.transform import EmptyStackError, Matrix
from x7.geom.geom import BasePoint, ParallelLineError
from x7.geom.anim import *
from x7.geom.anim import Animation, Morph, MorphMultiStep, MorphError, AnimationGeneric, AnimationLinear, AnimationLinearFunc
from x7.geom.anim import AnimationSinusoidal, AnimationCircular
from x7.geom.utils import arc2p, check_point_list


def refused(msg, op, *objs, must=True):
    """op() raises (if it must), and when it raises nothing is different"""
    before, w = observe(*objs), world()
    failed = False
    try:
        op()
    except Exception:
        failed = True
    if must:
        check(failed, msg + ': is refused')
    if failed:
        same(observe(*objs), before, msg + ': nothing is changed')
        same(world(), w, msg + ': package state unchanged')
    return failed


# ---------------------------------------------------------------------- groups
def case_add(kind=KINDS, name=('x.y', '.', 'a.', 'g.free'), n=(0, 2)):
    g = group('g', *[rect('m%d' % i) for i in range(n)])
    e = shape(kind, 'e', 'e')
    refused('add', lambda: g.add(name, e), g, e)
    if name != 'g.free':
        return
    g.add('free', e)
    same(list(g.elems)[-1], 'free', 'a proper name is taken afterwards')


def case_add_deep():
    g = tree()
    refused('add below', lambda: g.lookup('s.u').add('p.q', rect('e')), g)


def case_add_pt(name=('taken', 'a.b'), kind=POINTS):
    g = group('g')
    g.add_pt('taken', pt('p'))
    q = point_of(kind, 'q')
    refused('add_pt', lambda: g.add_pt(name, q), g, q)


def case_replace(path=('a', 's.b', 's', 'd'), name=('d', 'a', 'b', 'c', 's', 'x.y', '.'), kind=('ElemCurve', 'ElemRectangle', 'Group')):
    """taken and dotted names are refused (free ones are not)"""
    g = small()
    old = g.lookup(path)
    home = g.lookup('s') if path[:2] == 's.' else g
    new = shape(kind, name, 'new')
    clash = '.' in name or (name != old.name and name in home.elems)
    before = observe(g, old, new)
    if refused('replace', lambda: g.replace(old, new), g, old, new, must=clash):
        check(clash, 'a free name is accepted')
    else:
        live(not clash, 'accepted')


def case_replace_several(order=(('g', 's', 't'), ('s', 'g', 't'), ('s', 't', 'g')), clash=('g', 's', 't')):
    """a model with the shape in several groups, one of which cannot take the replacement"""
    e, block = rect('e'), rect('n', 'block')

    def fill(k, *more):
        return group(k, e, *(list(more) + ([block] if k == clash else [])))
    s, t = fill('s'), fill('t')
    members = {'g': e, 's': s, 't': t}
    g = group('g', *([members[k] for k in order] + ([block] if clash == 'g' else [])))
    new = crv('n')
    refused('replace', lambda: g.replace(e, new), g, s, t, e, new, block)


def case_replace_nested_deep(depth=(1, 2, 3)):
    e, new = rect('e'), crv('n')
    inner = group('i', e, rect('n', 'block'))
    for i in range(depth):
        inner = group('o%d' % i, inner)
    g = group('g', e, inner)
    refused('replace', lambda: g.replace(e, new), g, e, new)


def case_replace_holes(first=(True, False)):
    """a group whose replace stops at a shape with holes has not been changed when it does"""
    e, w, new = rect('e'), holes('w'), crv('n')
    g = group('g', e, w) if first else group('g', w, e)
    refused('replace', lambda: g.replace(e, new), g, e, w, new, must=False)


def case_lookup(tag=('x', 's.x', 's.u.w.x', 'a.b', '')):
    g = tree()
    refused('lookup', lambda: g.lookup(tag), g)


def case_construct_group(bad=('string', 'set', 'number', 'filled')):
    a = rect('a')
    v = {'string': 'abc', 'set': {1}, 'number': 3, 'filled': [a]}[bad]
    pb, x, ps = PenBrush('ink', 'wash' if bad == 'filled' else None), tf('x'), {'p': pt('p')}
    refused('Group', lambda: Group('g', pb, False, x, v, ps), a, pb, x, ps, v)


def case_construct_open_filled(cls=('curve', 'Group', 'holes', 'rect')):
    """a filled shape has to be closed; what it was to be built from is left alone"""
    pb, x, cps, a, b = PenBrush('ink', 'wash'), tf('x'), [cp('0'), cp('1')], crv('a'), rect('b')
    inside = [b]
    make = {
        'curve': lambda: ElemCurve('e', pb, cps, False, x),
        'Group': lambda: Group('e', pb, False, x, [a, b], None, False),
        'holes': lambda: ElemWithHoles('e', pb, a, inside, False, x),
        'rect': lambda: ElemRectangle('e', pb, pt('p'), pt('q'), False, x),
    }
    refused(cls, make[cls], pb, x, cps, a, b, inside)


def case_builder(make=('rect', 'rrect', 'ellipse', 'curve', 'group'), bad=('dotted', 'kind', 'open')):
    b = GroupBuilder('g', pens())
    b.rect('e', pt('a'), pt('b'))
    p, q, cps = pt('p'), pt('q'), [cp('0', 'smooth'), cp('1', 'smooth')]
    name = 'x.y' if bad == 'dotted' else 'n'
    kind = 'unknown' if bad == 'kind' else 'edge_filled'
    closed = bad != 'open'
    make_ = {
        'rect': lambda: b.rect(name, p, q, kind, closed),
        'rrect': lambda: b.rrect(name, p, q, 1, kind, closed),
        'ellipse': lambda: b.ellipse(name, p, q, kind, closed),
        'curve': lambda: b.curve(name, cps, kind, closed),
        'group': lambda: b.group(name, None, kind),
    }
    if make == 'group' and bad != 'dotted':
        return
    refused('builder ' + make, make_[make], b, b.the_group, p, q, cps)


def case_builder_points(name=('p', 'x.y')):
    b = GroupBuilder('g', pens())
    b.point('p', real('x'), real('y'))
    refused('builder point', lambda: b.point(name, 1, 2), b, b.the_group)


# ---------------------------------------------------------------------- shapes
def case_restore_curve(n=(1, 2, 3), m=(1, 2, 3)):
    """a curve with another number of points is refused"""
    a = ElemCurve('a', penbrush('a'), [cp('a%d' % i) for i in range(n)], True, tf('ax'))
    b = ElemCurve('b', penbrush('b'), [cp('b%d' % i) for i in range(m)], True, tf('bx'))
    if refused('restore', lambda: a.restore(b), a, b, must=n != m):
        check(n != m, 'the same number is accepted')
    else:
        same(a, b, 'restored')


def case_no_box_update(kind=('ElemCurve', 'Group', 'ElemWithHoles')):
    e, box = elem_of(kind, 'e'), bb_sorted('b')
    refused('bbox_int_update', lambda: e.bbox_int_update(box), e, box)


def case_no_digi_points(kind=COMPOSITES):
    e = elem_of(kind, 'e')
    refused('as_digi_points', lambda: e.as_digi_points(), e)


def case_empty_group(op=('bbox_int', 'bbox', 'center')):
    g = Group('g', PenBrush('ink'), xform=tf('x'))
    ops = {'bbox_int': lambda: g.bbox_int(), 'bbox': lambda: g.bbox(), 'center': lambda: g.center()}
    check(raises(GeomInternalError, ops[op]), 'an empty group has no box')
    refused(op, ops[op], g)


def case_path_closed(bad=(None, 0, 1, 'yes')):
    ps = [pt('p')]
    refused('Path', lambda: Path(PenBrush('ink'), bad, ps), ps)


def case_singular_shape(kind=('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse'), op=('transform',)):
    """a map that cannot be undone: refused or not, nothing is left behind"""
    e = elem_of(kind, 'e', False)
    k = real('k')
    assume(k > 1)
    t = Transform((k, k, real('x'), k, k, real('y')))
    refused(op, lambda: e.transform(t), e, t, must=False)


# ---------------------------------------------------------------------- transforms
def case_pop(n=(0, 1, 2)):
    t = tf('t')
    for i in range(n):
        t.push().translate(real('x%d' % i), real('y%d' % i))
    for i in range(n):
        t.pop()
    check(raises(EmptyStackError, t.pop), 'one pop too many')
    refused('pop', t.pop, t)
    same(t.as_6tuple(), tf('t').as_6tuple(), 'still the same map')


def case_enter():
    t = tf('t')

    def use():
        with t:
            pass
    check(raises(EmptyStackError, use), 'entering without push')
    refused('enter', use, t)


def case_reported_in_blocks(what=('pop', 'enter', 'inverse', 'name', 'lookup', 'unit', 'kind', 'crossing', 'size', 'box', 'replace')):
    """a refusal inside a block over a pushed map reaches the caller, and the map is as before the block"""
    t, u, g = tf('t'), Transform(), group('g', rect('a'))
    before, flat = t.as_6tuple(), Transform((0, 0, 1, 0, 0, 1))
    ops = {
        'pop': lambda: u.pop(),
        'enter': lambda: u.__enter__(),
        'inverse': lambda: flat.untransform(1, 2),
        'name': lambda: g.add('x.y', rect('b')),
        'lookup': lambda: g.lookup('zz'),
        'unit': lambda: Vector().unit(),
        'kind': lambda: PensByShape()['zz'],
        'crossing': lambda: Line(Point(0, 0), Vector(1, 1)).intersection(Line(Point(1, 0), Vector(2, 2))),
        'size': lambda: crv('a', 1).restore(crv('b', 2)),
        'box': lambda: BBox(None).center,
        'replace': lambda: holes('h').replace(1, 2),
    }

    def block():
        with t.push().translate(real('dx'), real('dy')):
            ops[what]()
    check(raises(Exception, ops[what]), 'refused')
    check(raises(Exception, block), 'refused inside a block too')
    same((t.as_6tuple(), len(t.stack)), (before, 0), 'the block is undone')


SINGULAR_OPS = {
    'inverse': lambda t: t.inverse,
    'untransform': lambda t: t.untransform(1, 2),
    'untransform_pt': lambda t: t.untransform_pt(pt('p')),
    'untransform_pts': lambda t: t.untransform_pts([(1, 2), (3, 4)]),
}


def case_singular(op=tuple(SINGULAR_OPS), then=('same', 'repaired', 'popped')):
    """a map that cannot be undone says so, every time, and can be used on"""
    a, b = real('a'), real('b')
    t = tf_inv('t')
    t.push()
    t.set_matrix(Transform((a, b, real('c'), 2 * a, 2 * b, real('f'))))
    refused(op, lambda: SINGULAR_OPS[op](t), t)
    check(raises(Exception, SINGULAR_OPS[op], t), 'refused again')
    if then == 'repaired':
        t.set_matrix(Transform((2, 0, 1, 0, 4, 1)))
        same(t.untransform(5, 9), (2, 2), 'usable after repair')
    elif then == 'popped':
        t.pop()
        x, y = real('x'), real('y')
        same(t.untransform(*t.transform(x, y)), (x, y), 'usable after pop')
    else:
        same(t.transform(1, 1), (a + b + real('c'), 2 * a + 2 * b + real('f')), 'forward still works')


def case_scale_bbox(aspect=(True, False), flat=('width', 'height', 'both', 'none')):
    """fitting an empty box is impossible"""
    t = tf('t')
    x, y, w, h = real('x'), real('y'), pos('w'), pos('h')
    start = BBox(None) if flat == 'none' else BBox(x, y, x if flat != 'height' else x + w, y if flat != 'width' else y + h)
    target = bb_sorted('d')
    refused('scale_bbox', lambda: t.scale_bbox(start, target, aspect), t, start, target)


BAD = {'none': None, 'text': 'x', 'tuple': (1, 2)}

TRANSFORM_OPS = {
    'translate': lambda t, v: t.translate(v, v),
    'translate_y': lambda t, v: t.translate(1, v),
    'scale': lambda t, v: t.scale(v, v),
    'scale_y': lambda t, v: t.scale(2, v),
    'rotate': lambda t, v: t.rotate(v),
    'rotate_ccw': lambda t, v: t.rotate_ccw(v),
    'compose': lambda t, v: t.compose(v),
    'compose_outer': lambda t, v: t.compose_outer(v),
    'set_matrix': lambda t, v: t.set_matrix(v),
    'transform_pt': lambda t, v: t.transform_pt(v),
    'transform_pts': lambda t, v: t.transform_pts([v]),
}


def case_transform_arguments(op=('rotate', 'rotate_ccw', 'compose', 'compose_outer',
                                 'set_matrix', 'transform_pt'), bad=('none', 'text')):
    """one step of the wrong kind leaves nothing behind (operations of several steps are free in their order)"""
    t = tf_inv('t')
    t.push()
    x, y = t.transform(1, 2)
    refused(op, lambda: TRANSFORM_OPS[op](t, BAD[bad]), t)
    same(t.untransform(x, y), (1, 2), 'usable afterwards')


# ---------------------------------------------------------------------- points, vectors, boxes, lines, pens
def case_grow(bad=('x', 3), empty=(True, False)):
    b = BBox(None) if empty else bb_sorted('b')
    refused('grow', lambda: b.grow(bad), b)


def case_box_none(op=('contains', 'overlaps', 'p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center', 'add')):
    a, b = BBox(None), bb_sorted('b')
    ops = {'contains': lambda: b.contains(a), 'overlaps': lambda: b.overlaps(a), 'add': lambda: b + 3}
    refused(op, ops[op] if op in ops else lambda: getattr(a, op), a, b)


def case_vector(op=('unit', 'sub', 'add', 'divide', 'set', 'setxy')):
    u, p = vec('u'), pt('p')
    z, r = Vector(0, 0), VectorRelative(p, pt('q'))
    ops = {'unit': lambda: z.unit(), 'sub': lambda: u - p, 'add': lambda: u + 1, 'divide': lambda: u / 0,
           'set': lambda: r.set(u), 'setxy': lambda: r.setxy(1, 2)}
    refused(op, ops[op], u, p, z, r)


def case_point(op=('restore', 'set', 'add', 'sub', 'mul')):
    p, q = named_pt('p'), pt('q')
    ops = {'restore': lambda: p.restore(None), 'set': lambda: p.set('x'), 'add': lambda: p + q, 'sub': lambda: p - 1, 'mul': lambda: p * 2}
    refused(op, ops[op], p, q)


def case_line(op=('intersection', 'segment', 'closest')):
    o, q = pt('o'), pt('q')
    u, k = vec('u'), real('k')
    a, b, z = Line(o, u), Line(q, u * k), Line(o, Vector(0, 0))
    if op == 'segment':
        refused(op, lambda: a.segment_intersection(b), a, b, must=False)
    elif op == 'closest':
        refused(op, lambda: z.closest(q), z, q)
    else:
        check(raises(ParallelLineError, a.intersection, b), 'parallel lines do not meet')
        refused(op, lambda: a.intersection(b), a, b)


def case_pens(op=('both', 'kind')):
    pb, ps = penbrush('p'), pens()
    ops = {'both': lambda: pb.replace(pen=Pen('x'), width=3), 'kind': lambda: ps['unknown']}
    refused(op, ops[op], pb, ps)


def case_cp_restore(bad=('none', 'point')):
    c = cp('c')
    refused('restore', lambda: c.restore(None if bad == 'none' else pt('p')), c)


def case_helpers(op=('far', 'same', 'list')):
    p, q, r = Point(real('x'), real('y')), None, pos('r')
    q = p + Vector(3 * r, 0)
    lst = [p, q, (1, 2)]
    ops = {'far': lambda: arc2p(r, p, q), 'same': lambda: arc2p(r, p, p), 'list': lambda: check_point_list(lst)}
    refused(op, ops[op], p, q, lst)


# ---------------------------------------------------------------------- animations
def case_animate(cls=('generic', 'linear', 'linear_func', 'sinusoidal', 'circular'), kind=('PointRelative', 'PointCalc', 'vector', 'none')):
    p = vec('p') if kind == 'vector' else None if kind == 'none' else point_of(kind, 'p')
    q = pt('q')
    ops = {
        'generic': lambda: AnimationGeneric(p, lambda t, o, x: (0, 0)),
        'linear': lambda: AnimationLinear(p, q),
        'linear_func': lambda: AnimationLinearFunc(p, q, lambda t: t),
        'sinusoidal': lambda: AnimationSinusoidal(p, q),
        'circular': lambda: AnimationCircular(p, 1, 1),
    }
    refused(cls, ops[cls], p, q)


def case_morph(why=('size', 'absent', 'absent_force')):
    a, b = curve_named('a', 'a'), ElemCurve('b', PenBrush('ink'), [cp('b%d' % i, 'smooth') for i in range(3)])
    g = group('g', *([rect('r')] + ([a] if why == 'size' else []) + [crv('w')]))
    if why == 'absent':
        b = curve_named('b', 'b')
    f = lambda t: t
    if why != 'absent_force':
        refused('Morph', lambda: Morph(g, a, b, f, False), g, a, b)
    else:
        before = observe(g)
        check(raises(MorphError, Morph, g, a, b, f, True), 'refused')
        same(observe(g), before, 'the model is left alone')


def case_morph_multi(why=('absent', 'size')):
    a, b, c = curve_named('a', 'a'), curve_named('b', 'b'), ElemCurve('c', PenBrush('ink'), [cp('c%d' % i, 'smooth') for i in range(3)])
    g = group('g', *([rect('r')] + ([a] if why == 'size' else [])))
    before = observe(g)
    out = raises(Exception, lambda: MorphMultiStep(g, a, [(1.0, b), (2.0, c)] if why == 'size' else [(1.0, b)], lambda t: t))
    if why == 'absent':
        check(out, 'refused')
    if out:
        same(observe(g), before, 'the model is left alone')


BAD_POINTS = {
    'odd': [1, 2, 3], 'odd after a pair': [(1, 2), 3], 'odd after two': [(1, 2), 3, 4, 5], 'one': [1], 'a word': ['x'], 'a word after': [1, 'x'], 'a pair for y': [(0, 0), 1, (2, 3)],
    'three': [(1, 2), (3, 4, 5)], 'four': [(1, 2), (3, 4, 5, 6)], 'single': [(1, 2), (3,)], 'none': [(1, 2), None], 'a list': [[1, 2], [3, 4]],
}


def case_parse(bad=tuple(BAD_POINTS), thruples=(False, True), then=(0, 1, 2)):
    """a list of points that is refused is the caller's as before"""
    given = list(BAD_POINTS[bad]) + [(8, 9), Point(1, 1)][:then]
    kept = list(given)
    if bad == 'three' and thruples:
        BasePoint.parse(given, thruples)
    else:
        check(raises(ValueError, BasePoint.parse, given, thruples), 'refused')
    same(given, kept, 'the list is as before')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c21': ('add_taken', 'add_dotted_refused', 'construct_duplicates', 'construct_refused', 'replace_absent', 'points_refused',
        'builder_wrong'),
    'c11': ('failing_member',),
    'c03': ('from_state_to_state',),
}
