"""C04: equality compares everything that was constructed, is symmetric, and never raises."""
from specs.prelude import *
from x7.geom.vec_field import VectorField, Mesh
import numpy as np

MAKERS = {
    'Point': (lambda a: Point(a['x'], a['y'], a['name']), {'x': 'n', 'y': 'n', 'name': 'w'}),
    'PointRelative': (lambda a: PointRelative(a['dx'], a['dy'], a['base'], a['name']), {'dx': 'n', 'dy': 'n', 'base': 'p', 'name': 'w'}),
    'PointCalc': (lambda a: PointCalc(a['base'], a['scale'], a['name']), {'base': 'r', 'scale': 'n', 'name': 'w'}),
    'Vector': (lambda a: Vector(a['x'], a['y']), {'x': 'n', 'y': 'n'}),
    'VectorRelative': (lambda a: VectorRelative(a['p1'], a['p2']), {'p1': 'p', 'p2': 'p'}),
    'Line': (lambda a: Line(a['origin'], a['direction']), {'origin': 'p', 'direction': 'v'}),
    'Transform': (lambda a: Transform((a['a'], a['b'], a['c'], a['d'], a['e'], a['f'])),
                  {'a': 'n', 'b': 'n', 'c': 'n', 'd': 'n', 'e': 'n', 'f': 'n'}),
    'Matrix': (lambda a: Matrix([[a['a'], a['b'], a['c']], [a['d'], a['e'], a['f']], [a['g'], a['h'], a['i']]]),
               {'a': 'n', 'b': 'n', 'c': 'n', 'd': 'n', 'e': 'n', 'f': 'n', 'g': 'n', 'h': 'n', 'i': 'n'}),
    'Brush': (lambda a: Brush(a['color']), {'color': 'w'}),
    'Pen': (lambda a: Pen(a['color'], a['width']), {'color': 'w', 'width': 'n'}),
    'PenBrush': (lambda a: PenBrush(a['pen'], a['brush']), {'pen': 'pen', 'brush': 'brush'}),
    'ControlPoint': (lambda a: ControlPoint(a['c'], a['dl'], a['dr'], a['kind']), {'c': 'p', 'dl': 'v', 'dr': 'v', 'kind': 'w'}),
    'ControlPath': (lambda a: ControlPath([a['p'], a['q']]), {'p': 'p', 'q': 'cp'}),
    'ElemCurve': (lambda a: ElemCurve(a['name'], a['penbrush'], [a['cp0'], a['cp1']], a['closed'], a['xform']),
                  {'name': 'w', 'penbrush': 'edge', 'cp0': 'cp', 'cp1': 'cp', 'closed': 'b', 'xform': 't'}),
    'ElemRectangle': (lambda a: ElemRectangle(a['name'], a['penbrush'], a['p1'], a['p2'], True, a['xform']),
                      {'name': 'w', 'penbrush': 'pb', 'p1': 'p', 'p2': 'p', 'xform': 't'}),
    'ElemEllipse': (lambda a: ElemEllipse(a['name'], a['penbrush'], a['p1'], a['p2'], True, a['xform']),
                    {'name': 'w', 'penbrush': 'pb', 'p1': 'p', 'p2': 'p', 'xform': 't'}),
    'ElemRectangleRounded': (lambda a: ElemRectangleRounded(a['name'], a['penbrush'], a['p1'], a['p2'], a['radius'], True, a['xform']),
                             {'name': 'w', 'penbrush': 'pb', 'p1': 'p', 'p2': 'p', 'radius': 'n', 'xform': 't'}),
    'Group': (lambda a: Group(a['name'], a['penbrush'], a['hidden'], a['xform'], {'a': a['elem']}, {'p': a['point']}, a['closed']),
              {'name': 'w', 'penbrush': 'edge', 'hidden': 'b', 'xform': 't', 'elem': 'e', 'point': 'p', 'closed': 'b'}),
    'ElemWithHoles': (lambda a: ElemWithHoles(a['name'], a['penbrush'], a['outside'], [a['inside']], a['closed'], a['xform']),
                      {'name': 'w', 'penbrush': 'edge', 'outside': 'e', 'inside': 'e', 'closed': 'b', 'xform': 't'}),
}
MAKERS['BBox'] = (lambda a: BBox((a['x'], a['y'], a['x'] + 1, a['y'] + 2)), {'x': 'n', 'y': 'n'})


def value(kind, k):
    """an arbitrary attribute value"""
    if kind == 'n':
        return real(k)
    if kind == 'w':
        return word(k)
    if kind == 'b':
        return flag(k)
    if kind == 'p':
        return pt(k)
    if kind == 'v':
        return vec(k)
    if kind == 'r':
        return PointRelative(real(k + '.dx'), real(k + '.dy'), pt(k + '.base'))
    if kind == 't':
        return tf(k)
    if kind == 'cp':
        return cp(k)
    if kind == 'pen':
        return Pen(word(k + '.color'), real(k + '.width'))
    if kind == 'brush':
        return Brush(word(k + '.color'))
    if kind == 'pb':
        return penbrush(k)
    if kind == 'edge':
        return PenBrush(Pen(word(k + '.color'), real(k + '.width')), None)
    if kind == 'e':
        return ElemRectangle(word(k + '.name'), PenBrush('red'), pt(k + '.p1'), pt(k + '.p2'))
    raise ValueError(kind)


def values_equal(kind, a, b):
    """equality of attribute values, spelled out"""
    if kind in 'nwb':
        return a == b
    if kind in 'pv':
        return a.x == b.x and a.y == b.y
    if kind == 'r':
        return a.dx == b.dx and a.dy == b.dy and a.base.x == b.base.x and a.base.y == b.base.y
    if kind == 't':
        return all([x == y for x, y in zip(a.as_6tuple(), b.as_6tuple())])
    if kind == 'cp':
        return values_equal('p', a.c, b.c) and values_equal('v', a.dl, b.dl) and values_equal('v', a.dr, b.dr) and a.kind == b.kind
    if kind == 'pen':
        return a.brush.color == b.brush.color and a.width == b.width
    if kind == 'brush':
        return a.color == b.color
    if kind == 'pb':
        return values_equal('pen', a.pen, b.pen) and values_equal('brush', a.brush, b.brush)
    if kind == 'edge':
        return values_equal('pen', a.pen, b.pen)
    if kind == 'e':
        return a.name == b.name and values_equal('p', a.p1, b.p1) and values_equal('p', a.p2, b.p2)
    raise ValueError(kind)


ALL = tuple(MAKERS)


def attrs_of(cls, k):
    return {name: value(kind, k + '.' + name) for name, kind in MAKERS[cls][1].items()}


def case_every_attribute(cls=ALL):
    """objects of one class are equal exactly when all constructor arguments are"""
    make, kinds = MAKERS[cls]
    for name, kind in kinds.items():
        a, b = attrs_of(cls, 'a'), attrs_of(cls, 'a')
        b[name] = value(kind, 'b.' + name)
        x, y = make(a), make(b)
        want = values_equal(kind, a[name], b[name])
        same(x == y, want, '%s: equal exactly when %s is equal' % (cls, name))
        same(y == x, want, '%s: symmetric in %s' % (cls, name))
        same(x != y, not want, '%s: != is the opposite, %s' % (cls, name))


def case_all_attributes(cls=ALL):
    """two unrelated objects of one class: equal exactly when everything is"""
    make, kinds = MAKERS[cls]
    a, b = attrs_of(cls, 'a'), attrs_of(cls, 'b')
    want = True
    for name, kind in kinds.items():
        want = want and values_equal(kind, a[name], b[name])
    same(make(a) == make(b), want, '%s: equal exactly when everything is' % cls)


def case_reflexive(cls=ALL):
    make, kinds = MAKERS[cls]
    a = attrs_of(cls, 'a')
    x = make(a)
    check(x == x, '%s: equal to itself' % cls)
    check(x == make(attrs_of(cls, 'a')), '%s: equal to a twin' % cls)
    check(not (x != x), '%s: not unequal to itself' % cls)


STRANGERS = {
    'none': lambda: None, 'number': lambda: 5, 'text': lambda: 'x', 'tuple': lambda: (1, 2), 'list': lambda: [1],
}


def case_strangers(cls=ALL):
    """comparison with anything else answers False and never raises"""
    make, kinds = MAKERS[cls]
    x = make(attrs_of(cls, 'a'))
    for what, other in STRANGERS.items():
        check(not (x == other()), '%s == %s is False' % (cls, what))
        check(x != other(), '%s != %s is True' % (cls, what))
        check(not (other() == x), '%s == %s is False' % (what, cls))


def case_cross(cls=ALL, other=ALL):
    """objects of different classes are never equal, whatever they contain"""
    if cls < other:
        x, y = MAKERS[cls][0](attrs_of(cls, 'a')), MAKERS[other][0](attrs_of(other, 'b'))
        check(not (x == y), '%s == %s is False' % (cls, other))
        check(not (y == x), '%s == %s is False' % (other, cls))


def case_names_of_nothing(kind=('Point', 'PointRelative', 'PointCalc', 'Vector'), one=(None, '', 'a', 0), other=(None, '', 'a', 0)):
    """an empty name is a name of its own"""
    def make(name):
        if kind == 'Point':
            return Point(1, 2, name)
        if kind == 'PointRelative':
            return PointRelative(1, 2, Point(3, 4), name)
        p = PointCalc(PointRelative(1, 2, Point(3, 4)), 2) if kind == 'PointCalc' else Vector(1, 2)
        p.name = name
        return p
    got = make(one) == make(other)
    if kind != 'Vector':
        check(got == (one == other), 'equal exactly when the names are')


def case_lookalikes():
    """same contents, different class"""
    check(not (pt('p') == vec('p')), 'point and vector with the same coordinates differ')
    check(not (vec('p') == pt('p')), 'vector and point with the same coordinates differ')
    p = pt('p')
    check(not (PointRelative(0, 0, p) == p), 'relative point on its base is not its base')
    check(not (p == PointRelative(0, 0, p)), 'a point is not the relative point on it')
    check(not (VectorRelative(p, Point(0, 0)) == Vector(p.x, p.y)), 'difference is not a plain vector')
    check(not (Vector(p.x, p.y) == VectorRelative(p, Point(0, 0))), 'plain vector is not a difference')
    r = ElemRectangle('e', PenBrush('red'), pt('p'), pt('q'))
    o = ElemEllipse('e', PenBrush('red'), pt('p'), pt('q'))
    check(not (r == o), 'rectangle and ellipse in the same box differ')
    check(not (o == r), 'ellipse and rectangle in the same box differ')
    rr = ElemRectangleRounded('e', PenBrush('red'), pt('p'), pt('q'), 0)
    check(not (r == rr), 'rectangle and rounded rectangle differ')
    check(not (rr == r), 'rounded rectangle and rectangle differ')


def case_same_place(cls=('relative', 'calc'), other=('relative', 'calc', 'point')):
    """points which are defined differently differ, also where they are at the same place"""
    x, y = 5, 7
    make = {'relative': lambda b: PointRelative(1, 2, b), 'calc': lambda b: PointCalc(b, 2), 'point': lambda b: b}
    bases = [Point(x, y), Point(x, y, 'name'), PointRelative(0, 0, Point(x, y)), PointRelative(x, y, Point(0, 0)), PointRelative(x, y, Point(0, 0), 'name'),
             PointCalc(PointRelative(0, 0, Point(x, y)), 1), PointRelative(x - 1, y - 1, Point(1, 1)), PointRelative(0, 0, PointRelative(0, 0, Point(x, y)))]
    for i, b in enumerate(bases):
        for j, c in enumerate(bases):
            if cls == 'calc' and not hasattr(b, 'base') or other == 'calc' and not hasattr(c, 'base'):
                continue
            p, q = make[cls](b), make[other](c)
            equal = cls == other and i == j
            check((p == q) is equal and (q == p) is equal, 'equal exactly when defined alike')
            check((p != q) is (not equal), 'and unequal otherwise')


PRINT_ALIKE = {
    'brush': lambda: (Brush(1), Brush('1')), 'brush none': lambda: (Brush(None), Brush('None')), 'pen': lambda: (Pen(1, 2), Pen('1', 2)),
    'pen width': lambda: (Pen('red', 2), Pen('red', '2')), 'point name': lambda: (Point(1, 2, 'p.q'), Point(1, 2, 'p-q')),
    'pen brush': lambda: (PenBrush('a', None), PenBrush('a', 'None')), 'fill': lambda: (PenBrush(None, 1), PenBrush(None, '1')),
    'digits': lambda: (Point(1.0000000004, 2), Point(1.0000000003, 2)), 'digits v': lambda: (Vector(1, 2.0000001), Vector(1, 2)),
    'pair': lambda: (Brush('a, b'), Brush('a,b')), 'width': lambda: (Pen('red', 1.0001), Pen('red', 1)),
    'box': lambda: (BBox(1, 2, 3, 4), BBox(1, 2, 3, 4.000001)), 'map': lambda: (Transform((1, 0, 0, 0, 1, 0)), Transform((1, 0, 0, 0, 1.0000001, 0))),
    'curve kind': lambda: (ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6), 'sharp'), ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6), 'Sharp')),
}


def case_print_alike(pair=tuple(PRINT_ALIKE)):
    """what looks the same in print need not be the same"""
    a, b = PRINT_ALIKE[pair]()
    check((a == b) is False and (b == a) is False, 'different')
    check((a != b) is True and (b != a) is True, 'unequal')
    check(a == PRINT_ALIKE[pair]()[0] and b == PRINT_ALIKE[pair]()[1], 'equal to its twin')


def case_containers():
    """equality of groups and curves covers the number and the names of the parts"""
    g = Group('g', PenBrush('red'), False, None, {'a': value('e', 'a')})
    h = Group('g', PenBrush('red'), False, None, {'a': value('e', 'a'), 'b': value('e', 'b')})
    i = Group('g', PenBrush('red'), False, None, {'b': value('e', 'a')})
    check(not (g == h), 'group with more elements differs')
    check(not (h == g), 'group with fewer elements differs')
    check(not (g == i), 'group with other keys differs')
    check(not (Group('g', PenBrush('red'), points={'p': pt('p')}) == Group('g', PenBrush('red'))), 'group with more points differs')
    c = ElemCurve('c', PenBrush('red'), [cp('a')])
    d = ElemCurve('c', PenBrush('red'), [cp('a'), cp('b')])
    check(not (c == d), 'curve with more control points differs')
    check(not (d == c), 'curve with fewer control points differs')
    w = ElemWithHoles('w', PenBrush('red'), value('e', 'o'), [value('e', 'a')])
    v = ElemWithHoles('w', PenBrush('red'), value('e', 'o'), [])
    check(not (w == v), 'shape with more holes differs')
    check(not (v == w), 'shape with fewer holes differs')
    check(not (ControlPath([pt('p')]) == ControlPath([pt('p'), pt('p')])), 'control path with more points differs')
    check(BBox(None) == BBox(None), 'empty boxes are equal')
    check(not (BBox(None) == BBox(0, 0, 0, 0)), 'an empty box is not the zero box')


def case_bbox_corners():
    """boxes are equal exactly when all four sides are"""
    a, b = bb('a'), bb('b')
    same(a == b, a.xl == b.xl and a.yl == b.yl and a.xh == b.xh and a.yh == b.yh, 'boxes are equal exactly when all sides are')


def case_order_free(cls=('point', 'vector')):
    """equality ignores how the value came about"""
    if cls == 'point':
        p, v = pt('p'), vec('v')
        check((p + v) - v == p, 'P+V-V == P')
    else:
        u, v = vec('u'), vec('v')
        check((u + v) - v == u, 'U+V-V == U')


def case_transform_history():
    """equality of transforms depends on the matrix only"""
    t, u = tf('t'), tf('t')
    t.push().scale(2, 3).pop()
    check(t == u, 'a transform equals its twin after push and pop')
    check(t == t.copy(), 'a transform equals its copy')



def case_many_parts(kind=('curve', 'holes', 'group', 'points', 'path'), at=(0, 1, 5, 9)):
    """a difference in any one of many parts counts, the last ones included"""
    def build(other=None):
        k = ['a%d' % i for i in range(10)]
        if other is not None:
            k[at] = other
        if kind == 'curve':
            return ElemCurve('c', PenBrush('red'), [cp(x) for x in k])
        if kind == 'holes':
            return ElemWithHoles('w', PenBrush('red'), value('e', 'o'), [value('e', x) for x in k])
        if kind == 'group':
            return Group('g', PenBrush('red'), elems={'e%d' % i: value('e', x) for i, x in enumerate(k)})
        if kind == 'points':
            return Group('g', PenBrush('red'), points={'p%d' % i: pt(x) for i, x in enumerate(k)})
        return ControlPath([pt(x) for x in k])
    part = {'curve': cp, 'points': pt, 'path': pt}.get(kind, lambda k: value('e', k))
    a, b = build(), build()
    check(a == b and b == a and not a != b, 'equal when every part is')
    c = build('z')
    alike = part('a%d' % at) == part('z')
    same(a == c, alike, 'equal exactly when the part is')
    same(c == a, alike, 'the other way round too')
    same(a != c, not alike, '!= is the opposite')

FIELDS = {
    'x': ([[1, 2], [3, 4]], [[0, 0], [0, 0]]),
    'y': ([[0, 0], [0, 0]], [[1, 2], [3, 4]]),
    'swapped': ([[0, 0], [0, 0]], [[0, 0], [0, 0]]),
    'large': ([[1e17, 0], [0, 0]], [[1, 2], [3, 4]]),
    'large too': ([[1e17, 0], [0, 0]], [[2, 2], [3, 4]]),
    'opposite': ([[1, 2], [3, 4]], [[-1, -2], [-3, -4]]),
    'turned': ([[1, 3], [2, 4]], [[0, 0], [0, 0]]),
    'one off': ([[1, 2], [3, 5]], [[0, 0], [0, 0]]),
}


def case_fields(one=tuple(FIELDS), other=tuple(FIELDS), looked=(False, True), same_mesh=(True, False)):
    """fields are equal exactly when their meshes and both tables of vectors are"""
    def field(which, k=1):
        vx, vy = FIELDS[which]
        return VectorField(Mesh(BBox(0, 0, 2, k), 2), np.array(vx), np.array(vy))
    a, b = field(one), field(other, 1 if same_mesh else 3)
    if looked:
        a.transform(0.5, 0.5)
    want = one == other and same_mesh
    same((a == b, b == a), (want, want), 'equal')
    same((a != b, b != a), (not want, not want), 'not equal')
    if want:
        check(a == a.copy() and b.copy() == a, 'so are copies')



PLACES = {
    'point': lambda: Point(5, 7),
    'named': lambda: Point(5, 7, 'n'),
    'relative': lambda: PointRelative(1, 2, Point(4, 5)),
    'relative too': lambda: PointRelative(2, 2, Point(3, 5)),
    'calculated': lambda: PointCalc(PointRelative(2, 4, Point(4, 5)), 0.5),
}
STEPS = {
    'vector': lambda: Vector(1, 2),
    'live': lambda: VectorRelative(Point(4, 5), Point(3, 3)),
    'live too': lambda: VectorRelative(Point(1, 2), Point(0, 0)),
}
HOLDERS = {
    'line': lambda p, v: Line(p, v),
    'control point': lambda p, v: ControlPoint(p, v, Vector(3, 4), 'smooth'),
    'control point right': lambda p, v: ControlPoint(p, Vector(3, 4), v, 'smooth'),
    'path': lambda p, v: ControlPath([p, ControlPoint(Point(0, 0), v, v)]),
    'curve': lambda p, v: ElemCurve('c', PenBrush('red'), [ControlPoint(p, v, v), ControlPoint(Point(0, 0), Vector(1, 0), v)], True),
    'group': lambda p, v: Group('g', PenBrush('red'), points={'p': p}),
    'relative': lambda p, v: PointRelative(1, 1, p),
    'difference': lambda p, v: VectorRelative(Point(0, 0), p),
    'holes': lambda p, v: ElemWithHoles('h', PenBrush('red', 'blue'), ElemCurve('c', PenBrush('red'), [ControlPoint(p, v, v)], True), []),
}


def case_parts_look_alike(holder=tuple(HOLDERS), p=tuple(PLACES), q=tuple(PLACES)):
    """what holds points or vectors is equal exactly when they are, not when they are at the same place"""
    for v in STEPS:
        for w in STEPS:
            p1, p2, v1, v2 = PLACES[p](), PLACES[q](), STEPS[v](), STEPS[w]()
            x, y = HOLDERS[holder](p1, v1), HOLDERS[holder](p2, v2)
            want = True
            if holder in ('line', 'control point', 'control point right', 'path', 'curve', 'holes'):
                want = v == w
            want = want and p == q
            same(x == y, want, '%s: equal exactly when its parts are' % holder)
            same(x != y, not want, '%s: unequal exactly when a part is' % holder)


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c27': ('eq',),
    'c28': ('equal',),
}
