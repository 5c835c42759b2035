"""C17: what is printed for a value reads back as an equal value; a dumped model loads as an equal model."""
from specs.prelude import *
from x7.geom import geom, transform, colors, bezier, model
from x7.geom.model import DumpContext

MODULES = (geom, transform, colors, bezier)


def back(x, msg):
    """repr(x), read back, equals x and is of the class of x"""
    y = evaluate(repr(x), MODULES)
    check(type(y) is type(x), msg + ': same class')
    check(y == x, msg + ': reads back equal')
    check(not (y != x), msg + ': and not different')
    return y


# ---------------------------------------------------------------------- values
def case_point(kind=POINTS + ('PointRelative2',)):
    x = point_of(kind, 'p')
    y = back(x, kind)
    same(y.xy(), x.xy(), 'same place')
    same(y.name, x.name, 'same name')


def case_point_unusual_name(name=('it\'s', 'a "b"', "both ' and \"", 'back\\slash', 'a, b)', 'new\nline', '%s')):
    x = Point(real('x'), real('y'), name)
    same(back(x, 'point').name, name, 'the name comes back')
    x = PointRelative(real('x'), real('y'), Point(1, 2, name), name)
    y = back(x, 'relative point')
    same((y.name, y.base.name), (name, name), 'both names come back')


def case_point_follows(kind=('PointRelative', 'PointCalc')):
    """a computed point reads back as a computed point"""
    y = evaluate(repr(point_of(kind, 'p')), MODULES)
    base = y.base if kind == 'PointRelative' else y.base.base
    before = y.xy()
    dx, dy = real('mx'), real('my')
    base.set(Point(base.x + dx, base.y + dy))
    if kind == 'PointRelative':
        same(y.xy(), (before[0] + dx, before[1] + dy), 'the point read back follows its base')


def case_vector(kind=VECTORS):
    x = vector_of(kind, 'v')
    same(back(x, kind).xy(), x.xy(), 'same coordinates')


def case_bbox(how=('tuple', 'corners', 'point', 'empty')):
    if how == 'empty':
        b = BBox(None)
    elif how == 'point':
        b = BBox(pt('p'), pt('p'))
    elif how == 'corners':
        b = bb('b')
    else:
        b = bb_sorted('b')
    y = back(b, 'box')
    same(y.as_tuple(), b.as_tuple(), 'same corners')


def case_line(kind=POINTS):
    back(Line(point_of(kind, 'p'), vec('d')), 'line')


def case_transform():
    t = tf('t')
    y = back(t, 'transform')
    same(y.as_6tuple(), t.as_6tuple(), 'same map')


def case_control_point():
    x = cp('c')
    y = back(x, 'control point')
    same((y.c.xy(), y.dl.xy(), y.dr.xy(), y.kind), (x.c.xy(), x.dl.xy(), x.dr.xy(), x.kind), 'same handles and kind')


def case_control_point_kinds(c=POINTS, v=VECTORS):
    back(ControlPoint(point_of(c, 'p'), vector_of(v, 'l'), vector_of(v, 'r'), word('kind')), 'control point')


def case_pen(p=(0, 1, 2, 3, 4, 5, 6)):
    s, f, w = word('s'), word('f'), real('w')
    x = (Pen(s, w), Pen(s), Brush(f), PenBrush(Pen(s, w), Brush(f)), PenBrush(None, f), PenBrush(s), PenBrush((s, w), f))[p]
    back(x, 'pen')


# ---------------------------------------------------------------------- dumping
def load(dc):
    return execute(dc.output(), 'model')


def dumped(x):
    dc = DumpContext()
    x.dump(dc)
    return load(dc)


def same_shape(x, y, msg):
    check(type(x) is type(y), msg + ': same class')
    check(x == y, msg + ': equal')
    same(y.name, x.name, msg + ': name')
    same(y.xform.as_6tuple(), x.xform.as_6tuple(), msg + ': transform')
    check(y.penbrush == x.penbrush, msg + ': pen and brush')
    same(y.closed, x.closed, msg + ': open or closed')
    if isinstance(x, Group):
        same(list(y.elems), list(x.elems), msg + ': members in the same order')
        same(y.hidden, x.hidden, msg + ': hidden')
        same(sorted(y.points), sorted(x.points), msg + ': points')
        for k in x.elems:
            if k in y.elems:
                same_shape(x.elems[k], y.elems[k], msg + ': member')
    elif isinstance(x, ElemWithHoles):
        same_shape(x.outside, y.outside, msg + ': outline')
        same(len(y.inside), len(x.inside), msg + ': number of holes')
        for a, b in zip(x.inside, y.inside):
            same_shape(a, b, msg + ': hole')


COLOURS = {'text': 'red', 'rgb': (1, 2, 3), 'rgba': (1, 2, 3, 4), 'number': 7, 'zero': 0, 'none': None, 'quoted': "it's", 'braces': '{x}', 'clear': TRANSPARENT}
WIDTHS = {'default': (), 'zero': (0,), 'whole': (4,), 'half': (0.5,), 'negative': (-2,), 'tiny': (1e-9,)}


def same_colours(a, b):
    """two colours that are the same, as the same kind of thing"""
    return type(a) is type(b) and a == b


def case_dump_pens(ink=tuple(COLOURS), width=tuple(WIDTHS), variables=(True, False)):
    """pens and brushes of every form come back as they were"""
    for wash in COLOURS.values():
        pb = PenBrush(None if ink == 'none' else Pen(COLOURS[ink], *WIDTHS[width]), None if wash is None else Brush(wash))
        dc = DumpContext(variables)
        ElemRectangle('r', pb, Point(1, 2), Point(3, 4)).dump(dc)
        y = load(dc)
        check(y.penbrush == pb, 'equal')
        check(same_colours(y.penbrush.stroke_color, COLOURS[ink]), 'the colour of the pen')
        check(same_colours(y.penbrush.fill_color, wash), 'the colour of the brush')
        if ink != 'none':
            same(y.penbrush.pen.width, pb.pen.width, 'the width of the pen')


NAMES = ('xform', 'xform_1', 'xform1', 'xform_2', 'pen', 'pen_1', 'pen1', 'xform=xform_1', 'penbrush=pen_1', 'inside=', 'closed=True', 'hidden=False', 'elems', 'p', 'model', 'g', '',
         "', '", 'a, b', 'name\\', '%s', '{0}', 'None', '#', 'True', "x', PenBrush('red'), hidden=True, name='y")


def case_dump_names(name=NAMES, kind=ELEMS + ('OpenCurve',), variables=(True, False)):
    """a shape comes back whatever its name spells"""
    t, pb = Transform((2, 0, 3, 0, 4, 5)), PenBrush(Pen('ink', 2), 'wash')
    r = ElemRectangle('r', PenBrush('red'), Point(1, 2), Point(3, 4), xform=t)
    p, q = Point(1, 2), Point(3, 4)
    cps = [ControlPoint(p, Vector(1, 0), Vector(0, 1), 'smooth'), ControlPoint(q, Vector(1, 0), Vector(0, 1), 'sharp')]
    x = {'ElemRectangle': lambda: ElemRectangle(name, pb, p, q, xform=t), 'ElemRectangleRounded': lambda: ElemRectangleRounded(name, pb, p, q, 1, xform=t),
         'ElemEllipse': lambda: ElemEllipse(name, pb, p, q, xform=t), 'ElemCurve': lambda: ElemCurve(name, pb, cps, True, t), 'OpenCurve': lambda: ElemCurve(name, PenBrush(pb.pen), cps, False, t),
         'Group': lambda: Group(name, pb, True, t, {'r': r}, {'p': p}, True), 'ElemWithHoles': lambda: ElemWithHoles(name, pb, r, [r.copy()], True, t)}[kind]()
    dc = DumpContext(variables)
    x.dump(dc)
    same_shape(x, load(dc), 'loaded')


def case_dump_member_names(name=NAMES):
    """also as a member"""
    t = Transform((2, 0, 3, 0, 4, 5))
    g = Group('g', PenBrush('red'), False, t, [ElemRectangle(name, PenBrush('blue'), Point(1, 2), Point(3, 4), xform=Transform((1, 0, 3, 0, 1, 5))),
                                               Group(name + '2', PenBrush('green'), True, Transform((1, 2, 3, 0, 1, 5)), [ElemEllipse(name, PenBrush('blue'), Point(1, 2), Point(3, 4), xform=t)], {}, True)],
              {name: Point(5, 6)}, True)
    same_shape(g, load(g.dump()), 'loaded')


def case_leaf(kind=LEAVES + ('OpenCurve',), xform=(False, True)):
    x = elem_of(kind, 'e', xform)
    same_shape(x, dumped(x), 'loaded')


def case_leaf_direct(kind=LEAVES):
    """without variables for pens and transforms the text says the same"""
    x = elem_of(kind, 'e')
    dc = DumpContext(False)
    x.dump(dc)
    same_shape(x, load(dc), 'loaded')


def case_curve_sizes(n=(0, 1, 3, 12), closed=(True, False)):
    x = ElemCurve('c', PenBrush(word('s')), [cp('cp%d' % i) for i in range(n)], closed)
    same_shape(x, dumped(x), 'loaded')


def members(order):
    p = PenBrush('red', 'blue')
    return [ElemRectangle(order[0], p, pt('r1'), pt('r2')),
            ElemCurve(order[1], PenBrush('red'), [cp('c0'), cp('c1')], False),
            ElemEllipse(order[2], p, pt('l1'), pt('l2'), xform=tf_other('l'))]


def tf_other(k):
    """a transform that is certainly not the identity"""
    return Transform((real(k + '.a'), real(k + '.b'), real(k + '.c'), real(k + '.d'), real(k + '.e'), 7))


def plain_of(kind, name, k):
    p = PenBrush('green', 'blue')
    if kind == 'ElemRectangle':
        return ElemRectangle(name, p, pt(k + '.1'), pt(k + '.2'), xform=tf_other(k))
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(name, p, pt(k + '.1'), pt(k + '.2'), real(k + '.r'))
    if kind == 'ElemEllipse':
        return ElemEllipse(name, p, pt(k + '.1'), pt(k + '.2'))
    return ElemCurve(name, p, [cp(k + '.1'), cp(k + '.2')], True, tf_other(k))


def case_group(order=(('a', 'b', 'c'), ('c', 'a', 'b'), ('b', 'c', 'a')), hidden=(False, True), closed=(False, True)):
    g = Group(word('g'), PenBrush(Pen('gold', real('w')), 'pink' if closed else None), hidden, tf_other('x'), members(order), None, closed)
    same_shape(g, dumped(g), 'loaded')


def case_group_points(kind=POINTS):
    g = Group('g', PenBrush('red'), elems=members(('a', 'b', 'c')), points={'zed': point_of(kind, 'p'), 'one': pt('q')})
    y = dumped(g)
    same_shape(g, y, 'loaded')
    for k in g.points:
        check(y.points[k] == g.points[k], 'named points come back')


def case_group_nested(hidden=(False, True)):
    inner = Group('in', PenBrush('red'), hidden, tf_other('x'), members(('z', 'y', 'x')), {'p': pt('p')})
    g = Group('g', PenBrush('red'), False, tf_other('y'), [inner, plain_of('ElemRectangleRounded', 'rr', 'rr')])
    same_shape(g, dumped(g), 'loaded')


def case_group_empty():
    g = Group(word('g'), PenBrush('red'))
    same_shape(g, dumped(g), 'loaded')


def case_holes(outside=LEAVES, n=(0, 1, 2)):
    x = ElemWithHoles(word('h'), penbrush('pb'), plain_of(outside, word('o'), 'o'), [plain_of('ElemRectangle', word('i%d' % i), 'i%d' % i) for i in range(n)],
                      xform=tf_other('x'))
    same_shape(x, dumped(x), 'loaded')


def case_holes_in_group():
    x = ElemWithHoles('h', PenBrush('gold', 'pink'), plain_of('ElemCurve', 'o', 'o'), [plain_of('ElemEllipse', 'i', 'i')])
    g = Group('g', PenBrush('red'), elems=[x, plain_of('ElemRectangle', 'r', 'r')])
    same_shape(g, dumped(g), 'loaded')


def case_builder():
    b = GroupBuilder('b', PensByShape())
    b.rect('r', pt('p'), pt('q'))
    b.ellipse('e', pt('p'), pt('q'))
    same_shape(b.the_group, load(b.dump()), 'a built group')


def case_two_dumps_in_one(kind=ELEMS):
    """dumping changes nothing, so dumping again gives the same text"""
    x = elem_of(kind, 'e')
    a, b = DumpContext(), DumpContext()
    x.dump(a)
    x.dump(b)
    same(a.output(), b.output(), 'the same text again')
    same(a.depth, 0, 'indentation is back at the start')


# ---------------------------------------------------------------------- the dump context itself
def case_vars():
    """one variable for equal values, different ones for different values"""
    a, b = PenBrush('red', 'blue'), PenBrush('red', 'green')
    dc = DumpContext()
    n1, n2, n3, n4 = dc.set_var(a, 'pen'), dc.set_var(b, 'pen'), dc.set_var(PenBrush(a.pen, a.brush), 'pen'), dc.set_var(tf('x'), 'xform')
    check(n1 != n2, 'different pens have different names')
    same(n1, n3, 'equal pens share a name')
    check(n4 not in (n1, n2), 'transforms have names of their own')
    off = DumpContext(False)
    same(off.set_var(a), repr(a), 'variables can be switched off')


NEAR = {
    'shift': lambda k: Transform((1, 0, 0.501 + 0.003 * k, 0, 1, 2)),
    'turn': lambda k: Transform((1, 0.001 * k, 0, 0.001, 1, 0)),
    'tiny': lambda k: Transform((1, 0, 0, 0, 1, 1e-12 * k)),
    'large': lambda k: Transform((1, 0, 123456.781 + 0.001 * k, 0, 1, 0)),
}
NEAR_PENS = {
    'width': lambda k: PenBrush(Pen('red', 1.001 + 0.001 * k)),
    'thin': lambda k: PenBrush(Pen('red', k)),
    'sign': lambda k: PenBrush(Pen('red', 2 * k - 1)),
    'fill': lambda k: PenBrush(None, ((1, 2, 3), '(1, 2, 3)')[k]),
    'alpha': lambda k: PenBrush((1, 2, 3, 254 + k)),
    'named': lambda k: PenBrush(('1', 1)[k]),
    'no pen': lambda k: PenBrush((None, 'None')[k], 'red'),
    'swap': lambda k: (PenBrush('red', 'blue'), PenBrush('blue', 'red'))[k],
}


def case_vars_near(kind=tuple(NEAR)):
    """transforms that differ, however little, are kept apart"""
    a, b = NEAR[kind](0), NEAR[kind](1)
    dc = DumpContext()
    check(dc.set_var(a, 'xform') != dc.set_var(b, 'xform'), 'by name')
    g = Group('g', PenBrush('black'), elems=[
        ElemRectangle('a', PenBrush('red'), pt('p'), pt('q'), xform=a), ElemEllipse('b', PenBrush('red'), pt('p'), pt('q'), xform=b),
        ElemRectangle('c', PenBrush('red'), pt('p'), pt('q'), xform=a)])
    same_shape(g, load(g.dump()), 'and read back')


def case_pens_near(kind=tuple(NEAR_PENS)):
    """pens and brushes that differ, however little, are kept apart"""
    a, b = NEAR_PENS[kind](0), NEAR_PENS[kind](1)
    dc = DumpContext()
    check(dc.set_var(a, 'pen') != dc.set_var(b, 'pen'), 'by name')
    g = Group('g', PenBrush('black'), elems=[
        ElemRectangle('a', a, pt('p'), pt('q')), ElemEllipse('b', b, pt('p'), pt('q')), ElemRectangle('c', a, pt('p'), pt('q'))])
    same_shape(g, load(g.dump()), 'and read back')


def case_depth():
    dc = DumpContext()

    def fail():
        with dc:
            dc.append('x')
            raise KeyError(1)
    raises(KeyError, fail)
    same(dc.depth, 0, 'indentation is restored when dumping fails')
    same(DumpContext.DEFAULT_IMPORTS[:], DumpContext().imports, 'a new context starts from the default imports')
    dc.add_imports(['import zzz', 'import zzz'])
    check('import zzz' not in DumpContext().imports, 'imports of one dump do not leak into the next')
    same(dc.imports.count('import zzz'), 1, 'an import is listed once')


class Gadget(ElemRectangle):
    """a shape of a client that needs imports of its own, some from modules already imported from"""
    ELEM_IMPORTS = ['from x7.geom.geom import ParallelLineError', 'from mine.shapes import Gadget', 'from mine.shapes import helper', 'import mine']


class Widget(ElemCurve):
    ELEM_IMPORTS = ['from mine.shapes import Widget', 'import mine', 'import mine.more as m']


def case_client_imports(where=('alone', 'group', 'nested', 'hole', 'outline', 'twice', 'used context', 'both')):
    """what is written imports everything the classes in it ask for, each line once, after the usual ones"""
    e = Gadget('e', PenBrush('red'), Point(1, 2), Point(3, 4))
    w = Widget('w', PenBrush('red'), [ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6)), ControlPoint(Point(7, 8), Vector(3, 4), Vector(5, 6))], True)
    dc = DumpContext()
    if where == 'used context':
        dc.append('before')
        dc.add_imports(['import mine'])
    x = {'alone': lambda: e, 'group': lambda: Group('g', PenBrush('red'), elems={'e': e}), 'used context': lambda: e,
         'nested': lambda: Group('h', PenBrush('red'), elems={'g': Group('g', PenBrush('red'), elems={'e': e})}),
         'hole': lambda: ElemWithHoles('h', PenBrush('red'), ElemRectangle('o', PenBrush('red'), Point(0, 0), Point(9, 9)), [e]),
         'outline': lambda: ElemWithHoles('h', PenBrush('red'), e, []),
         'twice': lambda: Group('g', PenBrush('red'), elems={'e': e, 'f': Gadget('f', PenBrush('red'), Point(1, 2), Point(3, 4))}),
         'both': lambda: Group('g', PenBrush('red'), elems={'e': e, 'w': w})}[where]()
    lines = x.dump(dc).output().split('\n')
    wanted = DumpContext.DEFAULT_IMPORTS + Gadget.ELEM_IMPORTS + (Widget.ELEM_IMPORTS if where == 'both' else [])
    for line in wanted:
        same(lines.count(line), 1, 'every import asked for is written once')
    for line in wanted:
        check(lines.index(line) < lines.index(''), 'before anything else')
    same(lines[:len(DumpContext.DEFAULT_IMPORTS)], DumpContext.DEFAULT_IMPORTS, 'the usual imports come first')
    same(Gadget.ELEM_IMPORTS[3:], ['import mine'], 'the class asks for the same again')


def case_given_context(kind=ELEMS + ('builder',), first=('nothing', 'rect')):
    """dumping into a context adds to what is there, and hands it back"""
    if kind == 'builder':
        x = GroupBuilder('b', PensByShape())
        x.rect('r', pt('p'), pt('q'))
    else:
        x = elem_of(kind, 'e')
    alone, dc = x.dump(DumpContext(first == 'nothing')), DumpContext(first == 'nothing')
    if first == 'rect':
        ElemRectangle('before', PenBrush('red'), Point(1, 2), Point(3, 4)).dump(dc)
    had = dc.output(True) if first == 'rect' else ''
    check(x.dump(dc) is dc, 'the context given')
    if first == 'nothing':
        same(dc.output(), alone.output(), 'with the shape in it')
    else:
        same(dc.output(True), had + '\n' + alone.output(True), 'with the shape after what was there')


def case_extend(depth=(0, 1, 2)):
    """several lines at once are the same as one after the other, at the same depth"""
    a, b = DumpContext(), DumpContext()

    def write(k, n):
        if n:
            with a:
                with b:
                    write(k + 'x', n - 1)
        else:
            a.extend([k + '1', k + '2'])
            b.append(k + '1')
            b.append(k + '2')
    write('l', depth)
    same(a.output(True), b.output(True), 'the same lines')


def plain(kind, name, i):
    p, x = PenBrush('green', 'blue'), Transform((1, 0, i, 0, 2, 3)) if i % 5 else None
    if kind == 'ElemCurve':
        return ElemCurve(name, p, [ControlPoint(Point(i, j), Vector(1, j), Vector(j, i)) for j in range(3)], True, x)
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(name, p, Point(i, 0), Point(i + 9, 8), 2, xform=x)
    return (ElemRectangle if kind == 'ElemRectangle' else ElemEllipse)(name, p, Point(i, 0), Point(9, i + 1), xform=x)


def case_wide(n=(12,)):
    """many members and points of every kind, by their order"""
    kinds = LEAVES
    g = Group('g', PenBrush('red'), elems=[plain(kinds[i % 4], 'm%d' % (i * 7 % 12), i) for i in range(n)],
              points={'p%d' % (i * 5 % 12): Point(i, i % 3) for i in range(n)})
    y = dumped(g)
    same_shape(g, y, 'loaded')
    same([e.name for e in y.elems.values()], [e.name for e in g.elems.values()], 'many members in order')
    check(all(y.points[k] == g.points[k] for k in g.points), 'many points')


def case_deep_dump(depth=(5,), hidden=(0, 2)):
    """groups in groups in groups, with holes at the bottom"""
    e = ElemWithHoles('h', PenBrush('gold', 'pink'), plain('ElemCurve', 'o', 1), [plain('ElemEllipse', 'i', 2)])
    for i in range(depth):
        e = Group('g%d' % i, PenBrush('red'), i == hidden, Transform((1, 0, i, 0, 2, 3)),
                  [e, ElemRectangle('r', PenBrush('red'), Point(i, 0), Point(9, i + 1))])
    same_shape(e, dumped(e), 'loaded from deep')


PENS = {
    'strokes': lambda i: PenBrush('c%d' % i),
    'fills': lambda i: PenBrush('red', 'c%d' % i),
    'pens': lambda i: PenBrush(Pen('red', i)),
    'numbers': lambda i: PenBrush(Pen((i, 0, 1), 2), (0, i, 0)),
    'same': lambda i: PenBrush('red', 'blue'),
    'pairs': lambda i: PenBrush('c%d' % (i // 2), 'c%d' % (i % 3)),
}


def case_many_pens(n=(2, 9, 10, 11, 23), pens=tuple(PENS), xform=('different', 'same', 'none'), variables=(True, False)):
    """pens and transforms by the dozen, in shapes and in groups"""
    def x(i):
        return {'different': Transform((1, 0, i, 0, 1, 2 * i)), 'same': Transform((2, 0, 0, 0, 2, 0)), 'none': Transform()}[xform]
    es = [ElemRectangle('r%d' % i, PENS[pens](i), Point(i, 0), Point(9, i + 1), xform=x(i)) for i in range(n)]
    g = Group('g', PenBrush('c0', 'red'), False, x(3), [Group('in', PENS[pens](1), False, x(n), es[::2], None, True)] + es[1::2], None, True)
    dc = DumpContext(variables)
    g.dump(dc)
    same_shape(g, load(dc), 'loaded')
    again = DumpContext(variables)
    g.dump(again)
    same(again.output(), dc.output(), 'the same text again')


def case_builder_namesakes(inner=('rect', 'group')):
    """a builder writes its group, whatever its members are called"""
    b = GroupBuilder('g', PensByShape())
    b.rect('r', Point(0, 0), Point(1, 1))
    if inner == 'rect':
        b.rect('g', Point(2, 2), Point(3, 4))
    else:
        b.add('g', Group('g', PenBrush('red'), elems=[ElemRectangle('r', PenBrush('blue'), Point(5, 5), Point(6, 7))]))
    dc = b.dump()
    same_shape(b.the_group, load(dc), 'loaded')
    same(dc.output(), b.the_group.dump().output(), 'as the group itself')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c21': ('walk_names', 'lookup_groups'),
}
