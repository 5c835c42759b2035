"""C21: names lead to the shapes they name, in groups built in any way."""
from specs.prelude import *
from x7.geom.model import GroupBuilder

PB = ('ink', 'wash')


def rect(name, k=None):
    return ElemRectangle(name, PenBrush('ink', 'wash'), pt((k or name) + '.p1'), pt((k or name) + '.p2'), xform=tf_scale((k or name) + '.xf'))


def crv(name, k=None):
    return curve_named(name, k or name)


def curve_named(name, k):
    return ElemCurve(name, PenBrush('ink', 'wash'), [cp(k + '.0', 'smooth'), cp(k + '.1', 'sharp')], True, tf_scale(k + '.xf'))


def holes(name, n=1, k=None):
    k = k or name
    return ElemWithHoles(name, PenBrush('ink', 'wash'), crv('rim', k + '.rim'), [rect('h%d' % i, k + '.h%d' % i) for i in range(n)],
                         True, tf_scale(k + '.xf'))


def group(name, *members, **kw):
    return Group(name, PenBrush('ink'), elems=list(members), xform=tf_scale(name + '.gxf'), **kw)


KINDS = ('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve', 'Group', 'ElemWithHoles')
AUTO = {'ElemRectangle': 'rectangle', 'ElemRectangleRounded': 'rectanglerounded', 'ElemEllipse': 'ellipse',
        'ElemCurve': 'curve', 'Group': 'group', 'ElemWithHoles': 'withholes'}


def shape(kind, name, k):
    pb = PenBrush('ink', 'wash')
    if kind == 'ElemRectangle':
        return rect(name, k)
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(name, pb, Point(0, 0), Point(20, 10), 2)
    if kind == 'ElemEllipse':
        return ElemEllipse(name, pb, pt(k + '.p1'), pt(k + '.p2'))
    if kind == 'ElemCurve':
        return curve_named(name, k)
    if kind == 'Group':
        return Group(name, PenBrush('ink'), elems=[rect('inner', k + '.inner')])
    return holes(name, 1, k)


def filed(g, want, msg):
    """the members of g are exactly want (objects, in order), each under its own undotted name"""
    names, elems = list(g.elems.keys()), list(g.elems.values())
    check(len(elems) == len(want) and all(identical(a, b) for a, b in zip(elems, want)), msg + ': these members, in this order')
    same([e.name for e in elems], names, msg + ': filed under their own names')
    check(all('.' not in n for n in names), msg + ': no dots in names')
    check(all(identical(g.lookup(n), e) for n, e in g.elems.items()), msg + ': found under their names')


# ---------------------------------------------------------------------- adding
def case_add(kind=KINDS, n=(0, 1, 3, 11)):
    """a free name is taken as given, whatever name the shape had"""
    old = [rect('m%d' % i) for i in range(n)]
    g = group('g', *old)
    e = shape(kind, 'was', 'e')
    before = observe(*old)
    g.add('fresh', e)
    filed(g, old + [e], 'added')
    same(e.name, 'fresh', 'under the given name')
    same(observe(*old), before, 'the others are left alone')


def case_add_taken(kind=KINDS, fixname=(True, False), taken=(0, 1, 2, 10, 11)):
    """a taken name never displaces a member: the newcomer gets the first free numbered name"""
    g = group('g', rect('a'))
    old = list(g.elems.values())
    for i in range(taken):
        e = shape(kind, 'x', 'x%d' % i)
        g.add('a', e, fixname)
        old.append(e)
        same(e.name, '%s#%d' % (AUTO[kind], i), 'numbered in order')
    e = shape(kind, 'y', 'e')
    before = observe(*old)
    g.add('a', e, fixname)
    filed(g, old + [e], 'added')
    same(e.name, '%s#%d' % (AUTO[kind], taken), 'the first free number')
    same(observe(*old), before, 'the others are left alone')


def case_add_gap():
    """a free number in between is used"""
    g = group('g', rect('a'), rect('rectangle#0', 'r0'), rect('rectangle#2', 'r2'))
    old = list(g.elems.values())
    e, f = rect('e'), rect('f')
    g.add('a', e)
    g.add('a', f)
    filed(g, old + [e, f], 'added')
    same((e.name, f.name), ('rectangle#1', 'rectangle#3'), 'free numbers only')


def case_add_dotted(kind=('ElemRectangle', 'Group'), name=('g.a', 'root.g.a', 'g.b', '.b', 'x.y.b')):
    """with fixname, a path is reduced to its last part, and made unique"""
    g = group('g', rect('a'))
    old = list(g.elems.values())
    e = shape(kind, 'was', 'e')
    g.add(name, e, True)
    filed(g, old + [e], 'added')
    same(e.name, AUTO[kind] + '#0' if name[-1] == 'a' else 'b', 'the last part of the path')


def case_add_dotted_refused(name=('g.b', 'root.g.a', '.', 'b.')):
    g = group('g', rect('a'))
    e = rect('was', 'e')
    check(raises(ValueError, g.add, name, e), 'a path is refused')
    same(list(g.elems), ['a'], 'members stay')
    same(e.name, 'was', 'the refused shape keeps its name')


def case_construct(how=('list', 'tuple', 'dict', 'none'), fix=(True, False)):
    a, b, c = rect('a'), crv('b'), holes('c')
    if how == 'dict':
        given = {'a': a, 'b': b, 'c': c}
    elif how == 'none':
        given = None
    else:
        given = [a, b, c] if how == 'list' else (a, b, c)
    g = Group('g', PenBrush('ink'), elems=given, fix_names=fix)
    filed(g, [] if how == 'none' else [a, b, c], 'constructed')
    if how in ('list', 'dict'):
        g.add('d', rect('d'))
        same(len(given), 3, 'the collection given is not the group\'s own')


def case_construct_duplicates(fix=(True, False)):
    es = [rect('a', 'a0'), rect('a', 'a1'), crv('a', 'a2'), rect('b'), crv('b', 'b1')]
    g = Group('g', PenBrush('ink'), elems=es, fix_names=fix)
    filed(g, es, 'all are kept')
    same([e.name for e in es], ['a', 'rectangle#0', 'curve#0', 'b', 'curve#1'], 'under free names')


def case_construct_paths():
    es = [rect('g.a', 'a0'), rect('h.a', 'a1'), rect('h.k.c', 'c')]
    g = Group('g', PenBrush('ink'), elems=es, fix_names=True)
    filed(g, es, 'all are kept')
    same([e.name for e in es], ['a', 'rectangle#0', 'c'], 'under the last parts')


def case_construct_refused(bad=('string', 'set', 'number', 'dotted')):
    if bad == 'dotted':
        check(raises(ValueError, Group, 'g', PenBrush('ink'), False, None, [rect('x.y', 'e')]), 'a path is refused')
    else:
        v = {'string': 'abc', 'set': {1}, 'number': 3}[bad]
        check(raises(TypeError, Group, 'g', PenBrush('ink'), False, None, v), 'not a collection of shapes')


def case_regroup(depth=(1, 2)):
    """what a walk yields can be collected in a new group with fix_names, and nothing is lost"""
    g = group('g', rect('a'), group('k', rect('a', 'ka'), rect('b', 'kb')), holes('w', 2))
    if depth == 2:
        g = group('top', g)
    flat = list(g.iter_elems_transformed())
    n = Group('n', PenBrush('ink'), elems=flat, fix_names=True)
    filed(n, flat, 'regrouped')
    same(len(flat), len(g.elems), 'one per member')


# ---------------------------------------------------------------------- walking and looking up
def tree(k='g'):
    return group(k, rect('a'), group('s', rect('b'), group('u', crv('c'), holes('w', 2))), group('z'), crv('d'))


LEAF_PATHS = ['g.a', 'g.s.b', 'g.s.u.c', 'g.s.u.w.outside.rim', 'g.s.u.w.inside.h0', 'g.s.u.w.inside.h1', 'g.d']


def case_walk_names(root=(None, 'r', 'r.q')):
    g = tree()
    walked = list(g.iter_elems(root) if root else g.iter_elems())
    same([n for n, e, t in walked], [(root + '.' if root else '') + p for p in LEAF_PATHS], 'the walk names every leaf by its path, in drawing order')
    skip = len(root + '.g.') if root else 2
    check(all(identical(g.lookup(n[skip:]), e) for n, e, t in walked), 'the path leads back to the very shape')


def case_walk_names_holes(root=(None, 'r'), n=(0, 1, 3)):
    w = holes('w', n)
    walked = list(w.iter_elems(root) if root else w.iter_elems())
    pre = (root + '.' if root else '')
    same([m for m, e, t in walked], [pre + 'w.outside.rim'] + [pre + 'w.inside.h%d' % i for i in range(n)], 'outside first, then the holes')
    skip = len(pre + 'w.')
    check(all(identical(w.lookup(m[skip:]), e) for m, e, t in walked), 'the path leads back to the very shape')
    check([identical(e, f) for (m, e, t), f in zip(walked, [w.outside] + w.inside)] == [True] * (n + 1), 'the parts themselves')


def case_walk_transformed_names(root=(None, 'r')):
    g = tree()
    out = list(g.iter_elems_transformed(root) if root else g.iter_elems_transformed())
    pre = (root + '.' if root else '') + 'g.'
    same([e.name for e in out], [pre + n for n in ('a', 's', 'z', 'd')], 'members in order, by path')
    same([e.name for e in g.elems.values()], ['a', 's', 'z', 'd'], 'the members keep their own names')
    w = g.lookup('s.u.w')
    out = list(w.iter_elems_transformed(root) if root else w.iter_elems_transformed())
    pre = (root + '.' if root else '') + 'w.'
    same([e.name for e in out], [pre + n for n in ('outside.rim', 'inside.h0', 'inside.h1')], 'outside and holes, by path')
    same([e.name for e in [w.outside] + w.inside], ['rim', 'h0', 'h1'], 'the parts keep their own names')


def case_lookup_groups():
    g = tree()
    s, z = list(g.elems.values())[1:3]
    u = s.elems['u']
    check(identical(g.lookup('s'), s) and identical(g.lookup('s.u'), u) and identical(g.lookup('z'), z), 'groups are found by path too')
    check(identical(g.lookup('s.u.w'), u.elems['w']), 'and shapes with holes')
    check(identical(s.lookup('u.c'), g.lookup('s.u.c')), 'relative to the group asked')


def case_lookup_missing(tag=('x', 's.x', 's.u.x', 'z.x', 's.u.w.rim', 's.u.w.outside.x', 's.u.w.inside.h2', 's.u.w.outside.h0',
                             's.u.w.inside.rim', 's.u.w.x', 'b', 'A', '', 's.u.w.outside.', 's.u.w.outside', 's.u.w.inside', 's.u.w.inside.',
                             's.u.w.outside.xrim', 's.u.w.outside.rimx', 's.u.w.outside.ri', 's.u.w.outside.im', 's.u.w.outside.x.rim',
                             's.u.w.outside.RIM', 's.u.w.inside.h', 's.u.w.inside.0', 's.u.w.inside.h00', 's.u.w.inside.xh0', 's.u.w.inside.x.h0',
                             's.u.w.xoutside.rim', 's.u.w.in.h0', 's.u.w.out.rim', 'aa', ' a', 'ss.b', 's.bb', 's. b', '.a', '.', 's..b', 'u.c', 'c')):
    g = tree()
    before = observe(g)
    check(raises(KeyError, g.lookup, tag), 'an unknown name is a KeyError')
    same(observe(g), before, 'and changes nothing')


def case_lookup_below_leaf(tag=('a.b', 'a.a', 'd.outside', 'd.d', 's.b.x.y', 's.b.b', 's.b.b.b')):
    check(raises(ValueError, tree().lookup, tag), 'a leaf has no members')


def case_lookup_newest():
    """looking up sees what was added last, also deep below"""
    g = tree()
    e = rect('new')
    g.lookup('s.u').add('new', e)
    check(identical(g.lookup('s.u.new'), e), 'found by path')
    same([n for n, x, t in g.iter_elems()], LEAF_PATHS[:6] + ['g.s.u.new', 'g.d'], 'walked in its place')


# ---------------------------------------------------------------------- replacing
def small():
    return group('g', rect('a'), group('s', rect('b'), rect('c')), crv('d'))


def case_replace(path=('a', 'd', 's.b', 's.c', 's'), name=('same', 'other')):
    g = small()
    old = g.lookup(path)
    home = g.lookup(path.rpartition('.')[0]) if '.' in path else g
    members = list(home.elems.values())
    index = [i for i, m in enumerate(members) if identical(m, old)][0]
    new = curve_named(old.name if name == 'same' else 'brand', 'new')
    others = [x for x in members if not identical(x, old)]
    before, was = observe(*others), observe(old)
    same(g.replace(old, new), 1, 'one replacement')
    filed(home, members[:index] + [new] + members[index + 1:], 'takes the place of the old one')
    check(identical(g.lookup((path.rpartition('.')[0] + '.' if '.' in path else '') + new.name), new), 'found under its own name')
    same(observe(*others), before, 'the others are left alone')
    same(observe(old), was, 'and so is the one replaced')
    if name == 'other':
        check(raises(KeyError, g.lookup, path), 'the old name is gone')


def case_replace_everywhere():
    """one shape in several groups is replaced in all of them"""
    e = rect('e')
    s, t = group('s', rect('b'), e), group('t', e, rect('c'))
    g = group('g', s, e, t)
    new = crv('new')
    same(g.replace(e, new), 3, 'counts every place')
    filed(g, [s, new, t], 'top')
    filed(s, [s.elems['b'], new], 'first group')
    filed(t, [new, t.elems['c']], 'second group')


def case_replace_absent():
    g = small()
    before = observe(g)
    same(g.replace(rect('zz'), crv('new')), 0, 'nothing to replace')
    same(observe(g), before, 'nothing changes')


def case_replace_and_back(path=('a', 's.c')):
    g = small()
    old = g.lookup(path)
    before = observe(g)
    new = crv('new')
    g.replace(old, new)
    same(g.replace(new, old), 1, 'back again')
    same(observe(g), before, 'replacing there and back restores the group')
    check(identical(g.lookup(path), old), 'the original object is back')


def case_replace_empty():
    g = group('g')
    same(g.replace(rect('a'), rect('b')), 0, 'an empty group has nothing to replace')


# ---------------------------------------------------------------------- points
def case_points(kind=POINTS):
    g = group('g')
    p, q = point_of(kind, 'p'), point_of(kind, 'q')
    xy = p.xy()
    check(identical(g.add_pt('first', p), p), 'returns the point')
    g.add_pt('second', q)
    check(identical(g.lookup_pt('first'), p) and identical(g.lookup_pt('second'), q), 'the points themselves are found')
    same((p.name, q.name), ('first', 'second'), 'named as filed')
    same(p.xy(), xy, 'where they were')
    same(list(g.points), ['first', 'second'], 'in order')


def case_points_refused(name=('taken', 'a.b')):
    g = group('g')
    p, q = pt('p'), named_pt('q')
    g.add_pt('taken', p)
    before = observe(g, p, q)
    check(raises(Exception, g.add_pt, name, q), 'refused')
    same(observe(g, p, q), before, 'and nothing changes')
    check(raises(Exception, g.lookup_pt, 'a.b') and raises(KeyError, g.lookup_pt, 'unknown'), 'unknown points are not found')


# ---------------------------------------------------------------------- builders
def pens():
    return PensByShape(edge=PenBrush('e'), filled=PenBrush(None, 'f'), clear=PenBrush(None, TRANSPARENT),
                       edge_filled=PenBrush('ef', 'g'), edge_clear=PenBrush('ec', TRANSPARENT))


KIND_PENS = (None, 'edge', 'filled', 'clear', 'edge_filled', 'edge_clear', 'given')


def case_builder_shapes(make=('rect', 'rrect', 'ellipse', 'curve'), kind=KIND_PENS, default=('edge', 'filled')):
    ps = pens()
    b = GroupBuilder('g', ps, default)
    p, q, r = pt('p'), pt('q'), real('r')
    given = PenBrush('own')
    sk = given if kind == 'given' else kind
    cps = [cp('c0', 'smooth'), cp('c1', 'smooth')]
    if make == 'rect':
        e = b.rect('n', p, q, sk)
    elif make == 'rrect':
        e = b.rrect('n', p, q, r, sk)
    elif make == 'ellipse':
        e = b.ellipse('n', p, q, sk)
    else:
        e = b.curve('n', cps, sk)
    pb = given if kind == 'given' else ps[kind or default]
    filed(b.the_group, [e], 'filed')
    check(identical(b.lookup('n'), e), 'found through the builder')
    same(e.penbrush, pb, 'drawn with the pens of its kind')
    cls = {'rect': ElemRectangle, 'rrect': ElemRectangleRounded, 'ellipse': ElemEllipse, 'curve': ElemCurve}[make]
    check(type(e) is cls, 'of the class asked for')
    if make == 'curve':
        same(e.control_points, cps, 'with the control points given')
        same(e.closed, pb.filled, 'closed when it is filled')
    else:
        same((e.p1.xy(), e.p2.xy()), (p.xy(), q.xy()), 'with the corners given')
        check(e.closed is True, 'closed')
        if make == 'rrect':
            same(e.radius, r, 'with the radius given')
    same(e.xform, Transform(), 'placed as given')


def case_builder_closed(closed=(True, False)):
    b = GroupBuilder('g', pens())
    e = b.curve('n', [cp('c0', 'smooth'), cp('c1', 'smooth')], 'edge', closed)
    check(e.closed is closed, 'closed as asked')


def case_builder_groups(kind=(None, 'filled'), own=(True, False)):
    ps, qs = pens(), PensByShape(edge=PenBrush('other'))
    b = GroupBuilder('g', ps, 'edge_filled')
    s = b.group('s', qs if own else None, kind)
    e = s.rect('e', pt('p'), pt('q'))
    same(e.penbrush, (qs if own else ps)[kind or 'edge_filled'], 'inherits pens and kind unless given its own')
    filed(b.the_group, [s.the_group], 'the group is a member')
    check(identical(b.lookup('s.e'), e), 'found by path')
    same([n for n, x, t in b.iter_elems()], ['g.s.e'], 'walked by path')
    same([n for n, x, t in b.iter_elems('r')], ['r.g.s.e'], 'under the root given')
    same([x.name for x in b.iter_elems_transformed('r')], ['r.g.s'], 'and shallowly')


def case_builder_points():
    b = GroupBuilder('g', pens())
    x, y = real('x'), real('y')
    p = b.point('n', x, y)
    q = b.add_pt('m', pt('q'))
    same(p.xy(), (x, y), 'where asked')
    check(identical(b.lookup_pt('n'), p) and identical(b.lookup_pt('m'), q), 'found through the builder')
    check(identical(b.the_group.lookup_pt('n'), p), 'and in the group')


def case_builder_replace():
    b = GroupBuilder('g', pens())
    e, f = b.rect('e', pt('p'), pt('q')), b.ellipse('f', pt('r'), pt('s'))
    n = crv('n')
    same(b.replace(e, n), 1, 'counts')
    filed(b.the_group, [n, f], 'in its place')


def case_builder_around_group(group=('small', 'empty', 'points only')):
    g = {'small': small, 'empty': lambda: Group('g', PenBrush('red')),
         'points only': lambda: Group('g', PenBrush('red'), points={'o': pt('o')})}[group]()
    b = GroupBuilder('g', pens(), 'edge', g)
    e = b.rect('e', pt('p'), pt('q'))
    check(identical(b.the_group, g) and identical(g.lookup('e'), e), 'builds in the group given')


def case_builder_wrong():
    check(raises(TypeError, GroupBuilder, 'g', 'pens'), 'pens are needed')
    b = GroupBuilder('g', pens())
    check(raises(ValueError, b.rect, 'n', pt('p'), pt('q'), 'unknown'), 'an unknown kind is refused')
    same(len(b.the_group.elems), 0, 'and nothing is added')


def case_builder_rotate(show=(True, False), extra=('', '2')):
    b = GroupBuilder('g', pens())
    e = b.rect('e', Point(real('x'), real('y')), Point(real('x') + nonneg('w'), real('y') + nonneg('h')))
    r = b.rotate_about_center(e, 90, show, extra)
    want = ['e', 'e_r' + extra] + (['e_c' + extra] if show else [])
    same(list(b.the_group.elems), want, 'the rotated copy, and a mark if asked')
    check(identical(b.lookup('e'), e) and identical(b.lookup('e_r' + extra), r), 'found by name')
    same(r.bbox().center.xy(), e.bbox().center.xy(), 'about its centre')
    if show:
        same(b.lookup('e_c' + extra).bbox().center.xy(), e.bbox().center.xy(), 'marking the centre')


# ---------------------------------------------------------------------- deep and wide
def case_deep_names(depth=(3, 6)):
    g = rect('leaf')
    names = ['leaf']
    for i in range(depth):
        g = group('g%d' % i, rect('side'), g)
        names.insert(0, 'g%d' % i)
    walked = list(g.iter_elems('r'))
    want = ['r.' + '.'.join(names[:i + 1]) + '.side' for i in range(depth)] + ['r.' + '.'.join(names)]
    same([n for n, e, t in walked], want, 'every level is in the path')
    check(all(identical(g.lookup('.'.join(n.split('.')[2:])), e) for n, e, t in walked), 'each path leads back to the very shape')
    for i in range(1, depth + 1):
        same(g.lookup('.'.join(names[1:i + 1])).name, names[i], 'groups on the way are found')
    check(raises((KeyError, ValueError), g.lookup, '.'.join(names[1:]) + '.x'), 'nothing below the deepest')
    check(raises((KeyError, ValueError), g.lookup, '.'.join(names[2:])), 'no level may be left out')
    new = crv('new')
    leaf = g.lookup('.'.join(names[1:]))
    same(g.replace(leaf, new), 1, 'replaced at the bottom')
    check(identical(g.lookup('.'.join(names[1:-1] + ['new'])), new), 'and found there')


def case_wide_names(how=('list', 'add', 'builder')):
    """a dozen of members asking for few names"""
    asked = ['a', 'b', 'a', 'c', 'a', 'b', 'd', 'a', 'a', 'a', 'a', 'a', 'a']
    es = [rect(n, 'k%d' % i) for i, n in enumerate(asked)]
    if how == 'list':
        g = group('g', *es)
    else:
        g = group('g')
        for e, n in zip(es, asked):
            g.add(n, e, True)
    filed(g, es, 'many members')
    want, i = [], 0
    for k, n in enumerate(asked):
        if n in asked[:k]:
            want.append('rectangle#%d' % i)
            i += 1
        else:
            want.append(n)
    same(list(g.elems), want, 'first come, first served; the others are numbered in order')


def case_replace_last(n=(9,), at=(0, 4, 8)):
    """the place is kept among many"""
    es = [rect('e%d' % i) for i in range(n)]
    g = group('g', *es)
    new = crv('new')
    same(g.replace(es[at], new), 1, 'one replacement among many')
    filed(g, es[:at] + [new] + es[at + 1:], 'takes the place of the old one among many')


def case_replace_by_itself(path=('a', 'd', 's.b', 's'), how=('itself', 'its copy')):
    """replaced by itself or by an equal shape: still one place"""
    g = small()
    old = g.lookup(path)
    home = g.lookup(path.rpartition('.')[0]) if '.' in path else g
    names, before = list(home.elems), observe(g)
    new = old if how == 'itself' else old.copy()
    same(g.replace(old, new), 1, 'one replacement')
    same(observe(g), before, 'nothing to see')
    same(list(home.elems), names, 'in the same order')
    check(identical(g.lookup(path), new), 'the new one is there')


def case_replace_by_member():
    """replaced by a shape that is elsewhere already"""
    g = small()
    b = g.lookup('s.b')
    n = len(g.elems)
    same(g.replace(g.lookup('a'), b), 1, 'one replacement')
    check(identical(g.lookup('s.b'), b) and identical(g.lookup('b'), b), 'found in both places')
    same(len(g.elems), n, 'no more and no fewer')


def case_replace_equal_members():
    """of two equal shapes the given one is replaced, or both: never the other alone"""
    a, b = rect('a'), rect('a')
    s, t = group('s', a), group('t', b)
    g = group('g', s, t)
    new = crv('new')
    n = g.replace(b, new)
    check(identical(t.elems['new'], new), 'the given one is replaced')
    same(n, 1 + (1 if 'new' in s.elems else 0), 'counts every place')


def case_holes_of_one_name(n=(2, 3)):
    """of holes of one name the first is found"""
    holes = [rect('h') for i in range(n)]
    other = crv('o')
    w = ElemWithHoles('w', PenBrush('red'), curve_named('out', 'out'), [other] + holes)
    check(identical(w.lookup('inside.h'), holes[0]), 'the first of them')
    check(identical(w.lookup('inside.o'), other), 'others as ever')


def case_builder_namesakes(name=('g', 'r')):
    """a member called as the group is a member"""
    b = GroupBuilder('g', pens())
    e = b.rect('g', Point(0, 0), Point(1, 2))
    r = b.ellipse('r', Point(0, 0), Point(1, 2))
    check(identical(b.lookup(name), e if name == 'g' else r), 'found by name')
    same(b.dump().output(), b.the_group.dump().output(), 'the builder writes its group')
    same(list(b.iter_elems()), list(b.the_group.iter_elems('')), 'walks its group')
    same(b.replace(e, crv('n')), 1, 'and replaces in it')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c22': ('add', 'add_deep', 'add_pt', 'replace', 'replace_several', 'replace_nested_deep', 'replace_holes', 'lookup'),
    'c17': ('builder_namesakes',),
}
