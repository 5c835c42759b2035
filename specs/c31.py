"""C31: test data saved for geometry loads back equal; comparisons in tests honour their tolerance and report every difference."""
from specs.prelude import *
from specs.c17 import same_shape, plain_of, tf_other, members


class Pickler:
    """stand-in for x7.testing.support.PicklerExtension: keeps the pickler it belongs to"""
    def __init__(self, pickler):
        self.pickler = pickler
        self.primitives = ()
        self.types = ()


class Matcher:
    """stand-in for x7.testing.extended.ExtendedMatcher"""
    def __init__(self, test_case, kind=None):
        self.test_case = test_case
        if kind is None:
            raise ValueError('kind must be supplied')
        self.kind = kind


class TestCase:
    """stand-in for x7.testing.extended.TestCaseExtended: the documented comparison, and a scripted match()"""
    failureException = AssertionError

    def almostEqualFloat(self, first, second, places=None, delta=None):
        if first == second:
            return True
        if delta is not None and places is not None:
            raise TypeError('delta or places')
        diff = abs(first - second)
        if delta is None:
            delta = 0.5 / 10 ** (7 if places is None else places)
        return True if diff <= delta else '%s != %s' % (first, second)

    def almostEqual(self, first, second, places=None, msg=None, delta=None):
        if first == second:
            return True
        if isinstance(first, (int, float)) and isinstance(second, (int, float)):
            return self.almostEqualFloat(first, second, places, delta)
        if type(first) != type(second):
            return 'mismatched types'
        if isinstance(first, str):
            return 'not equal'
        for m in self.the_matchers():
            if isinstance(first, m.kind):
                return m.almost_equal(first, second, places=places, delta=delta)
        if isinstance(first, (list, tuple)):
            if len(first) != len(second):
                return 'mismatched lengths'
            for f, s in zip(first, second):
                r = self.almostEqual(f, s, places, None, delta)
                if r is not True:
                    return r
            return True
        return 'unknown type'

    def the_matchers(self):
        return [m(self) for m in self.MATCHERS[1:]]

    def match(self, new_data, case='0', func=None, cls=None, matcher=None):
        self.asked = (new_data, case, func, cls)
        return self.answer


stand_in('x7.testing.support.PicklerExtension', Pickler)
stand_in('x7.testing.extended.ExtendedMatcher', Matcher)
stand_in('x7.testing.extended.TestCaseExtended', TestCase)

from x7.geom import testing
from x7.geom.testing import TestCaseGeomExtended, PicklerExtensionGeom


# ---------------------------------------------------------------------- saving test data
def loaded(data, prefix='', msg=''):
    """what the loader makes of the saved text: only the names the extension offers are known to it"""
    p = PicklerExtensionGeom(object())
    text = p.do_pickle(data, prefix)
    check(isinstance(text, str), '%s: can be saved' % msg)
    return evaluate(text, [p.methods()])


def the_points(e):
    """everything the curve is made of: class and place of each point"""
    if isinstance(e, ElemCurve):
        return [(type(c.c).__name__, c.c.xy(), c.dl.xy(), c.dr.xy(), c.kind) for c in e.control_points]
    return []


def shape(kind, k):
    """an arbitrary shape; members of groups are filed under their own names"""
    if kind == 'Group':
        return Group(word(k), penbrush(k), flag(k + '.hidden'), tf_other(k + '.x'), members(('b', 'a', 'c')), {'p': pt(k + '.p')}, True)
    return elem_flat(kind, k)


def case_shape(kind=ELEMS + ('OpenCurve',), prefix=('', '    ', '            ')):
    e = shape(kind, 'e')
    before = observe(e)
    same_shape(e, loaded(e, prefix, kind), kind)
    same(observe(e), before, 'saving does not change the shape')


def case_shape_transform(kind=LEAVES):
    e = elem_of(kind, 'e')
    same_shape(e, loaded(e, '', kind), kind)


class Plate(ElemRectangle):
    """a shape of a client"""


class Tile(Plate):
    """a shape of a client, derived from another of its own"""


class Bubble(ElemEllipse):
    pass


class Outline(ElemCurve):
    pass


class Pile(Group):
    pass


class Spot(Point):
    """a point of a client"""


CLIENT = {
    'Plate': lambda: Plate(word('n'), penbrush('p'), pt('a'), pt('b')),
    'Tile': lambda: Tile(word('n'), penbrush('p'), pt('a'), pt('b'), True, tf_other('x')),
    'Bubble': lambda: Bubble(word('n'), penbrush('p'), pt('a'), pt('b')),
    'Outline': lambda: Outline(word('n'), PenBrush(word('c')), [cp('a'), cp('b')], False),
    'Pile': lambda: Pile(word('n'), PenBrush(word('c')), elems=[Tile('t', penbrush('p'), pt('a'), pt('b')), Plate('u', penbrush('p'), pt('a'), pt('b'))]),
}


def case_client_class(kind=tuple(CLIENT), where=('alone', 'list', 'group')):
    """shapes of classes the client derives, at any depth, load as what they are"""
    e = CLIENT[kind]()
    if where == 'list':
        back, = loaded([e], '', kind)
    elif where == 'group':
        e.name = 'm'
        back = loaded(Group('g', PenBrush('red'), elems={'m': e}), '', kind).elems['m']
    else:
        back = loaded(e, '', kind)
    check(type(back) is type(e), 'a shape of a class of the client loads as that class')
    same_shape(e, back, kind)


def case_client_point():
    s = Spot(real('x'), real('y'))
    e = ElemCurve('e', PenBrush('red'), [ControlPoint(s, vec('l'), vec('r')), cp('b')], False)
    check('Spot' in PicklerExtensionGeom(object()).methods(), 'points of a class of the client can be loaded')


def case_curve_points(kind=POINTS + ('PointRelative2',), handles=VECTORS, where=('alone', 'list', 'tagged', 'group', 'hole', 'outline')):
    """curves through points of every kind, alone and inside every structure that can be saved"""
    c = ElemCurve('c', penbrush('c'), [ControlPoint(point_of(kind, 'p'), vector_of(handles, 'l'), vector_of(handles, 'r'), 'sharp'),
                                       ControlPoint(pt('q'), vec('u'), vec('v'))], True)
    r = ElemRectangle('r', PenBrush('red'), pt('r1'), pt('r2'))
    t = tf('t')
    if where == 'alone':
        y = loaded(c, '', kind)
    elif where == 'list':
        first, y = loaded([r, c], '', kind)
        same_shape(r, first, 'first of the list')
    elif where == 'tagged':
        (tag, y, u), (tag2, first, u2) = loaded([('one', c, t), ('two', r, Transform())], '', kind)
        same((tag, tag2), ('one', 'two'), 'the tags come back')
        check(u == t and u2 == Transform(), 'the transforms come back')
        same_shape(r, first, 'second of the list')
    elif where == 'group':
        y = loaded(Group('g', PenBrush('red'), elems={'r': r, 'c': c}), '', kind).elems['c']
    elif where == 'hole':
        y = loaded(ElemWithHoles('w', PenBrush('red'), r, [c]), '', kind).inside[0]
    else:
        y = loaded(ElemWithHoles('w', PenBrush('red'), c, [r]), '', kind).outside
    same_shape(c, y, kind)
    same(the_points(y), the_points(c), '%s: every point and handle' % kind)


def case_values(kind=('Point', 'NamedPoint', 'Vector', 'BBox', 'BBoxNone', 'ControlPoint', 'Pen', 'Brush', 'PenBrush', 'Transform')):
    """printed values of the simple types read back under the names the extension offers"""
    x = (point_of(kind, 'p') if kind in POINTS else vector_of(kind, 'v') if kind in VECTORS else
         bb('b') if kind == 'BBox' else BBox(None) if kind == 'BBoxNone' else cp('c') if kind == 'ControlPoint' else
         Pen(word('s'), real('w')) if kind == 'Pen' else Brush(word('f')) if kind == 'Brush' else
         penbrush('pb') if kind == 'PenBrush' else tf('t'))
    p = PicklerExtensionGeom(object())
    y = evaluate(repr(x), [p.methods()])
    check(type(y) is type(x), '%s: same class' % kind)
    check(y == x, '%s: reads back equal' % kind)
    if True:
        check(isinstance(x, tuple(p.primitives)), '%s is saved as printed' % kind)


def case_lists(n=(0, 1, 2, 3, 9), prefix=('', '        ')):
    es = [elem_flat(LEAVES[i % 4], 'e%d' % i) for i in range(n)]
    back = loaded(es, prefix, 'list of shapes')
    same(len(back), n, 'as many shapes')
    for a, b in zip(es, back):
        same_shape(a, b, 'member')


SHARED = {'aa': (0, 0), 'aba': (0, 1, 0), 'aab': (0, 0, 1), 'baa': (1, 0, 0), 'abab': (0, 1, 0, 1), 'aaa': (0, 0, 0)}


def case_lists_shared(order=tuple(SHARED), kind=('ElemRectangle', 'ElemCurve', 'Group', 'ElemWithHoles'), prefix=('', '    '), alike=(True, False), tagged=(True, False)):
    """the same shape several times in one list, or shapes that are equal"""
    def make(i):
        return shape(kind, 'e') if i == 0 else ElemEllipse('b', PenBrush('red'), pt('p'), pt('q'))
    first = [make(0), make(1)]
    es = [make(i) if alike else first[i] for i in SHARED[order]]
    back = loaded([('t', e, Transform()) for e in es] if tagged else es, prefix, 'list of shapes')
    same(len(back), len(es), 'as many shapes')
    for a, b in zip(es, back):
        same_shape(a, b[1] if tagged else b, 'member')


def case_members_shared(kind=('ElemRectangle', 'ElemCurve'), order=tuple(SHARED)):
    """the same shape as several holes, or in several groups"""
    a, b = shape(kind, 'e'), ElemEllipse('b', PenBrush('red'), pt('p'), pt('q'))
    es = [(a, b)[i] for i in SHARED[order]]
    w = ElemWithHoles('w', PenBrush('red'), ElemRectangle('o', PenBrush('red'), pt('p'), pt('q')), es)
    same_shape(w, loaded(w, '', 'holes'), 'holes')
    gs = [Group('g%d' % i, PenBrush('red'), elems=[e], closed=True) for i, e in enumerate(es)]
    g = Group('g', PenBrush('red'), elems=gs, closed=True)
    same_shape(g, loaded(g, '', 'groups'), 'groups')


def case_tagged(first=ELEMS, second=('ElemRectangle', 'ElemCurve', 'Group'), prefix=('', '    ')):
    a, b = shape(first, 'a'), shape(second, 'b')
    back = loaded([(word('ta'), a, tf('t')), ('it\'s', b, Transform()), ('c', a, tf('u'))], prefix, 'tagged shapes')
    same([x[0] for x in back], [word('ta'), 'it\'s', 'c'], 'tags in order')
    for x, y in zip(back, (a, b, a)):
        same_shape(y, x[1], 'shape')
    check(back[0][2] == tf('t') and back[1][2] == Transform() and back[2][2] == tf('u'), 'transforms')


def case_not_ours(what=('text', 'number', 'none', 'mixed', 'mixed2', 'short', 'tuple', 'dict', 'tag', 'xf')):
    """data of other kinds is left to the pickler"""
    e = elem_flat('ElemRectangle', 'e')
    x = {'text': 'x', 'number': 5, 'none': None, 'mixed': [e, 5], 'mixed2': [5, e], 'short': [('a', e)], 'tuple': (e, e), 'dict': {'a': e},
         'tag': [(1, e, Transform())], 'xf': [('a', e, None)]}[what]
    check(PicklerExtensionGeom(object()).do_pickle(x, '') is None, 'not saved by this extension')


# ---------------------------------------------------------------------- comparing
def make(kind, k):
    return point_of(kind, k) if kind in POINTS else vector_of(kind, k) if kind in VECTORS else cp(k, 'smooth')


def shifted(kind, k, dx, dy):
    """two values of one class that differ by exactly (dx, dy)"""
    x, y = real(k + '.x'), real(k + '.y')
    base = pt(k + '.b')
    if kind == 'Point':
        return Point(x, y), Point(x + dx, y + dy)
    if kind == 'PointRelative':
        return PointRelative(x, y, base), PointRelative(x + dx, y + dy, base)
    if kind == 'Vector':
        return Vector(x, y), Vector(x + dx, y + dy)
    if kind == 'VectorRelative':
        return VectorRelative(Point(x, y), base), VectorRelative(Point(x + dx, y + dy), base)
    c, l, r = pt('c'), vec('l'), vec('r')
    if kind == 'cp.c':
        return ControlPoint(Point(x, y), l, r), ControlPoint(Point(x + dx, y + dy), l, r)
    if kind == 'cp.dl':
        return ControlPoint(c, Vector(x, y), r), ControlPoint(c, Vector(x + dx, y + dy), r)
    return ControlPoint(c, l, Vector(x, y)), ControlPoint(c, l, Vector(x + dx, y + dy))


PAIRS = ('Point', 'PointRelative', 'Vector', 'VectorRelative', 'cp.c', 'cp.dl', 'cp.dr')
# tolerance asked for, and a difference inside and outside it
TOL = {'default': ({}, 4e-8, 6e-8), 'places 1': (dict(places=1), 0.04, 0.06), 'places 0': (dict(places=0), 0.4, 0.6),
       'places 3': (dict(places=3), 4e-4, 6e-4), 'delta 0.5': (dict(delta=0.5), 0.4, 0.6), 'delta 1e-9': (dict(delta=1e-9), 5e-10, 2e-9),
       'delta 10': (dict(delta=10), 9, 11)}


def case_tolerance(kind=PAIRS, tol=('default', 'places 1', 'places 0', 'places 3', 'delta 0.5', 'delta 1e-9', 'delta 10'), axis=('x', 'y', 'both')):
    """the comparison accepts what is inside the tolerance asked for and nothing outside it, along either axis, in either direction"""
    kw, inside, outside = TOL[tol]
    tc = TestCaseGeomExtended()
    for d, want, what in ((inside, True, 'inside'), (outside, False, 'outside'), (-inside, True, 'inside, negative'), (-outside, False, 'outside, negative')):
        a, b = shifted(kind, 's', d if axis != 'y' else 0, d if axis != 'x' else 0)
        r = tc.almostEqual(a, b, **kw)
        if want:
            check(r is True, '%s, %s, %s: the difference is accepted' % (kind, tol, what))
        else:
            check(isinstance(r, str), '%s, %s, %s: the difference is reported' % (kind, tol, what))


def case_equal(kind=POINTS + VECTORS + ('ControlPoint',)):
    tc = TestCaseGeomExtended()
    check(tc.almostEqual(make(kind, 'a'), make(kind, 'a')) is True, 'equal values are accepted')
    for m in tc.the_matchers():
        if isinstance(make(kind, 'a'), m.kind):
            check(m.almost_equal(make(kind, 'a'), make(kind, 'a')) is True, 'and by the matcher itself')


def case_handled(kind=POINTS + VECTORS + ('ControlPoint',)):
    """every geometric value has a matcher of its kind"""
    n = [m for m in TestCaseGeomExtended().the_matchers() if isinstance(make(kind, 'a'), m.kind)]
    same(len(n), 1, '%s is handled by exactly one matcher' % kind)


def case_kind_of_handle():
    """control points that differ in kind only are not almost equal"""
    tc = TestCaseGeomExtended()
    a, b = cp('c', 'smooth'), cp('c', 'sharp')
    check(isinstance(tc.almostEqual(a, b), str), 'the kind is compared')


def case_explain(kind=PAIRS, size=('near', 'far'), axis=('x', 'y')):
    """the explanation of a mismatch tells close values from different ones and never raises"""
    d = 1e-12 if size == 'near' else 1
    a, b = shifted(kind, 's', d if axis == 'x' else 0, d if axis == 'y' else 0)
    for m in TestCaseGeomExtended().the_matchers():
        if isinstance(a, m.kind):
            close, text = m.explain_mismatch(a, b)
            same(bool(close), size == 'near', '%s: %s' % (kind, size))
            check(text is None or isinstance(text, str), 'with a text or none')


def case_explain_kind():
    for m in TestCaseGeomExtended().the_matchers():
        if m.kind is ControlPoint:
            close, text = m.explain_mismatch(cp('c', 'smooth'), cp('c', 'sharp'))
            check(not close, 'control points of different kinds are not close')


# ---------------------------------------------------------------------- matching pictures
def case_match(answer=('ok', 'text', 'error')):
    tc = TestCaseGeomExtended()
    tc.answer = {'ok': True, 'text': 'differs', 'error': ValueError('old data')}[answer]
    x = opaque('image')
    r = outcome(lambda: tc.assertMatchImage(x, 'case', 'func', 'cls'))
    same(tc.asked, (x, 'case', 'func', 'cls'), 'what is matched')
    same(r, {'ok': None, 'text': ('raises', 'AssertionError'), 'error': ('raises', 'ValueError')}[answer], 'passes exactly when the data matches')


SETTINGS = {'axes.titley': 0, 'axes.titlepad': 0, 'other': 0}
stand_in('matplotlib.pyplot.rcParams', SETTINGS)


def set_up(title, pad):
    """the plotting settings of the caller, and a log of what is done to the figure"""
    SETTINGS['axes.titley'], SETTINGS['axes.titlepad'], SETTINGS['other'] = title, pad, word('other')
    return dict(SETTINGS)


def case_plot(answer=('ok', 'text', 'error'), title=('none', 'set'), body=('plain', 'changes')):
    """the plotting settings of the caller survive a matched plot, whatever the outcome"""
    before = set_up(None if title == 'none' else real('titley'), real('pad'))
    tc = TestCaseGeomExtended()
    tc.answer = {'ok': True, 'text': 'differs', 'error': ValueError('old data')}[answer]

    def run():
        with tc.assertMatchPlot(shrink=posint('shrink'), case='one', func='fn'):
            if body == 'changes':
                SETTINGS['axes.titley'] = real('changed')
            same(SETTINGS['other'], before['other'], 'other settings are left alone inside')
    clear_events()
    r = outcome(run)
    same(r, {'ok': None, 'text': ('raises', 'AssertionError'), 'error': ('raises', 'ValueError')}[answer], 'passes exactly when the plot matches')
    same(SETTINGS, before, 'settings are as before')
    same(tc.asked[1:3], ('one', 'fn'), 'matched as the case asked for')
    same(len(events('matplotlib.pyplot.close')), 1, 'the figure is closed')
    same(len(events('matplotlib.pyplot.savefig')), 1, 'the figure is drawn once')


def case_plot_fails():
    """also when the data to compare with cannot be read"""
    before = set_up(real('titley'), real('pad'))
    tc = TestCaseGeomExtended()

    def no_data(*args):
        raise KeyError('no such case')
    tc.match = no_data

    def run():
        with tc.assertMatchPlot(shrink=posint('shrink'), case='one', func='fn'):
            pass
    same(outcome(run), ('raises', 'KeyError'), 'the failure is reported')
    same(SETTINGS, before, 'settings are as before')


def case_plot_again(first=('ok', 'text', 'error'), same_object=(True, False)):
    """a second comparison finds and leaves the settings as they are then"""
    set_up(real('titley'), real('pad'))
    tc = TestCaseGeomExtended()
    tc.answer = {'ok': True, 'text': 'differs', 'error': ValueError('old data')}[first]
    cm = tc.assertMatchPlot(shrink=2, case='one', func='fn')

    def use(cm):
        with cm:
            pass
    outcome(lambda: use(cm))
    SETTINGS['axes.titley'], SETTINGS['axes.titlepad'] = real('titley2'), real('pad2')
    tc.answer = True
    if not same_object:
        cm = tc.assertMatchPlot(shrink=2, case='two', func='fn')
    before = dict(SETTINGS)
    use(cm)
    same(SETTINGS, before, 'settings are as they were before the second comparison')
