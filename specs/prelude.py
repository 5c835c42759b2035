"""Builders of most general objects, shared by all rules (interpreted, never executed)."""
from x7.geom.geom import *
from x7.geom.transform import *
from x7.geom.colors import *
from x7.geom.bezier import *
from x7.geom.model import *
from x7.geom.model import make_ellipse_p1p2_cps, Path, ControlPath
from x7.geom.drawing import DrawingContext


def pt(k):
    return Point(real(k + '.x'), real(k + '.y'))


def named_pt(k):
    return Point(real(k + '.x'), real(k + '.y'), word(k + '.name'))


def vec(k):
    return Vector(real(k + '.x'), real(k + '.y'))


def point_of(kind, k):
    """an arbitrary point of one of the point classes"""
    if kind == 'Point':
        return pt(k)
    if kind == 'NamedPoint':
        return named_pt(k)
    if kind == 'PointRelative':
        return PointRelative(real(k + '.dx'), real(k + '.dy'), pt(k + '.base'), word(k + '.name'))
    if kind == 'PointRelative2':
        return PointRelative(real(k + '.dx'), real(k + '.dy'), point_of('PointRelative', k + '.b'))
    if kind == 'PointCalc':
        return PointCalc(PointRelative(real(k + '.dx'), real(k + '.dy'), pt(k + '.base')), real(k + '.scale'), word(k + '.name'))
    raise ValueError(kind)


def vector_of(kind, k):
    if kind == 'Vector':
        return vec(k)
    return VectorRelative(pt(k + '.p1'), pt(k + '.p2'))


POINTS = ('Point', 'NamedPoint', 'PointRelative', 'PointCalc')
VECTORS = ('Vector', 'VectorRelative')


def cp(k, kind='word'):
    return ControlPoint(pt(k + '.c'), vec(k + '.dl'), vec(k + '.dr'), word(k + '.kind') if kind == 'word' else kind)


def tf(k):
    """an arbitrary affine transform"""
    return Transform((real(k + '.a'), real(k + '.b'), real(k + '.c'), real(k + '.d'), real(k + '.e'), real(k + '.f')))


def det_of(t):
    a, b, c, d, e, f = t.as_6tuple()
    return a * e - b * d


def matrix_of(t):
    m = t.as_6tuple()
    return Matrix((m[:3], m[3:], (0, 0, 1)))


def tf_inv(k):
    """an arbitrary invertible affine transform"""
    t = tf(k)
    assume(det_of(t) != 0)
    return t


def tf_scale(k):
    """translation + scale"""
    return Transform((nonzero(k + '.sx'), 0, real(k + '.tx'), 0, nonzero(k + '.sy'), real(k + '.ty')))


def apply6(t, x, y):
    """the affine map described by the six published numbers"""
    a, b, c, d, e, f = t.as_6tuple()
    return a * x + b * y + c, d * x + e * y + f


def penbrush(k):
    return PenBrush(Pen(word(k + '.stroke'), real(k + '.width')), Brush(word(k + '.fill')))


def bb(k):
    return BBox(real(k + '.x1'), real(k + '.y1'), real(k + '.x2'), real(k + '.y2'))


def bb_sorted(k):
    """an arbitrary box with its lower corner first (no case split on order)"""
    x, y = real(k + '.x'), real(k + '.y')
    return BBox((x, y, x + nonneg(k + '.w'), y + nonneg(k + '.h')))


LEAVES = ('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve')
COMPOSITES = ('Group', 'ElemWithHoles')
ELEMS = LEAVES + COMPOSITES


def curve(k, n=2, closed=True, xform=True):
    return ElemCurve(word(k + '.name'), penbrush(k), [cp(k + '.cp%d' % i) for i in range(n)], closed,
                     tf(k + '.xf') if xform else None)


def elem_of(kind, k, xform=True):
    """an arbitrary shape of one of the shape classes, with an arbitrary transform"""
    x = tf(k + '.xf') if xform else None
    name = word(k + '.name')
    if kind == 'ElemRectangle':
        return ElemRectangle(name, penbrush(k), pt(k + '.p1'), pt(k + '.p2'), xform=x)
    if kind == 'ElemEllipse':
        return ElemEllipse(name, penbrush(k), pt(k + '.p1'), pt(k + '.p2'), xform=x)
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded(name, penbrush(k), pt(k + '.p1'), pt(k + '.p2'), pos(k + '.radius'), xform=x)
    if kind == 'ElemCurve':
        return ElemCurve(name, penbrush(k), [cp(k + '.cp0'), cp(k + '.cp1')], True, x)
    if kind == 'OpenCurve':
        return ElemCurve(name, PenBrush(Pen(word(k + '.stroke'), real(k + '.width'))), [cp(k + '.cp0'), cp(k + '.cp1')], False, x)
    if kind == 'Group':
        return Group(name, penbrush(k), flag(k + '.hidden'), x,
                     {'a': elem_of('ElemRectangle', k + '.a'), 'b': elem_of('ElemCurve', k + '.b')},
                     {'p': pt(k + '.p')}, True)
    if kind == 'ElemWithHoles':
        return ElemWithHoles(name, penbrush(k), elem_of('ElemCurve', k + '.out'), [elem_of('ElemRectangle', k + '.in0')], True, x)
    raise ValueError(kind)


def elem_flat(kind, k):
    """like elem_of, with distinct untransformed contents (for obligations where coordinates are irrelevant)"""
    return elem_of(kind, k, False)


def dctx(k, matrix=None):
    """a drawing context whose current matrix is arbitrary, for any purpose"""
    d = DrawingContext(None, matrix if matrix is not None else tf(k + '.m'), prod=flag(k + '.prod'))
    d.debug = flag(k + '.debug')
    return d


def outcome(f, *args):
    """(value) of a call, or ('raises', exception class name)"""
    try:
        return f(*args)
    except Exception as e:
        return ('raises', type(e).__name__)


def raises(exc, f, *args):
    try:
        f(*args)
    except exc:
        return True
    return False
