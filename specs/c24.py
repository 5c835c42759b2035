"""C24: what is drawn is the shape, with its pen and brush, in order, on the right surface."""
from specs.prelude import *
from x7.geom.model import GroupBuilder, ImagePath, Path


class Canvas(object):
    """a drawing surface that writes down what it is asked to draw"""
    def __init__(self):
        self.log = []

    def pairs(self, xy):
        pts = list(xy)
        if pts and not isinstance(pts[0], tuple):
            return [(pts[i], pts[i + 1]) for i in range(0, len(pts), 2)]
        return pts

    def polygon(self, xy, fill=None, outline=None, width=1):
        self.log.append(('area', self.pairs(xy), fill, outline, width))

    def line(self, xy, fill=None, width=0, joint=None):
        self.log.append(('line', self.pairs(xy), fill, width))

    def ellipse(self, xy, fill=None, outline=None, width=1):
        self.log.append(('ellipse', self.pairs(xy), fill, outline))

    def rectangle(self, xy, fill=None, outline=None, width=1):
        self.log.append(('rectangle', self.pairs(xy), fill, outline))


def context(m, prod=True, debug=False, crop=None):
    d = DrawingContext(None, m, crop, prod)
    d.debug = debug
    d.points_per_curve = 3
    d.draw = Canvas()
    return d


def drawn(e, d):
    c = Canvas()
    d.draw = c
    e.draw(d)
    check(identical(d.draw, c), 'the surface stays the one of the context')
    return c.log


PENNED = ('stroke', 'fill', 'both', 'none')


def pb_of(kind, width=None):
    pen = Pen(word('ink'), real('width') if width is None else width)
    return {'stroke': lambda: PenBrush(pen), 'fill': lambda: PenBrush(None, word('wash')), 'both': lambda: PenBrush(pen, word('wash')),
            'none': lambda: PenBrush(None), 'clear': lambda: PenBrush(None, TRANSPARENT), 'edge_clear': lambda: PenBrush(pen, TRANSPARENT)}[kind]()


SIMPLE = ('ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemCurve')


def simple(kind, k, pb, x=True):
    t = tf(k + '.xf') if x else None
    if kind == 'ElemRectangle':
        return ElemRectangle('n', pb, pt(k + '.p1'), pt(k + '.p2'), xform=t)
    if kind == 'ElemRectangleRounded':
        return ElemRectangleRounded('n', pb, Point(1, 2), Point(11, 9), 2, xform=t)
    if kind == 'ElemEllipse':
        return ElemEllipse('n', pb, pt(k + '.p1'), pt(k + '.p2'), xform=t)
    return ElemCurve('n', pb, [cp(k + '.0', 'smooth'), cp(k + '.1', 'smooth')], kind != 'OpenCurve', t)


def outline_of(e, m):
    """the points of the one outline of e"""
    d = context(m)
    ps = e.paths(d)
    same(len(ps), 1, 'one outline')
    return ps[0].points.tolist()


def along(got, pts, msg):
    """got visits pts in order, and may return to the first"""
    same(got[:len(pts)], pts, msg + ': along the outline')
    check(len(got) <= len(pts) + 1, msg + ': once around')
    if len(got) > len(pts):
        same(got[-1], pts[0], msg + ': back to its start')


def thickness(pb, m, prod):
    if not prod:
        return 1
    return max(1, round(pb.stroke_width(m)))


# ---------------------------------------------------------------------- simple shapes
def case_shape(kind=SIMPLE, pens=PENNED, prod=(True, False)):
    """area first, then the line around it; nothing without pen and brush"""
    m, pb = tf('m'), pb_of(pens)
    log = drawn(simple(kind, 'e', pb), context(m, prod))
    pts = outline_of(simple(kind, 'e', pb), m)
    want = {'stroke': ['line'], 'fill': ['area'], 'both': ['area', 'line'], 'none': []}[pens]
    same([c[0] for c in log], want, 'exactly what pen and brush ask for, area below line')
    for c in log:
        if c[0] == 'area':
            along(c[1], pts, 'area')
            same(c[2], word('wash'), 'the area has the colour of the brush')
            check(c[3] is None, 'the area has no outline of its own')
        else:
            along(c[1], pts, 'line')
            same(c[1][-1], c[1][0], 'the line is closed')
            same(c[2], word('ink'), 'the line has the colour of the pen')
            same(c[3], thickness(pb, m, prod), 'the line has the width of the pen')


def case_open(prod=(True, False)):
    m, pb = tf('m'), pb_of('stroke')
    log = drawn(simple('OpenCurve', 'e', pb), context(m, prod))
    pts = outline_of(simple('OpenCurve', 'e', pb), m)
    same(len(log), 1, 'one line')
    same(log[0][:3], ('line', pts, word('ink')), 'from the first point to the last')
    same(log[0][3], thickness(pb, m, prod), 'the line has the width of the pen')


def case_transparent(kind=('ElemRectangle', 'ElemCurve'), pens=('clear', 'edge_clear')):
    """a transparent fill is drawn: it clears what is below"""
    m = tf('m')
    log = drawn(simple(kind, 'e', pb_of(pens)), context(m))
    same([c[0] for c in log], ['area'] + (['line'] if pens == 'edge_clear' else []), 'area and line')
    same(log[0][2], TRANSPARENT, 'with the transparent colour')


def case_line_width(width=('thin', 'pixels', 'scaled', 'tiny'), prod=(True, False)):
    """widths in pixels do not depend on the map, negative widths follow it, lines never vanish"""
    s = pos('s')
    m = Transform().scale(s, s).translate(real('x'), real('y'))
    w = {'thin': 0, 'pixels': 7, 'scaled': -3, 'tiny': 0.25}[width]
    log = drawn(simple('ElemRectangle', 'e', pb_of('stroke', w)), context(m, prod))
    want = {'thin': 1, 'pixels': 7, 'scaled': max(1, round(3 * s)), 'tiny': 1}[width] if prod else 1
    same(log[0][3], want, 'the width of the line')


def case_again(kind=SIMPLE, prod=(True, False)):
    """drawing twice draws the same twice"""
    m, e = tf('m'), simple(kind, 'e', pb_of('both'))
    d = context(m, prod)
    same(drawn(e, d), drawn(e, d), 'drawn again')
    same(drawn(e.copy(), d), drawn(e, d), 'a copy is drawn the same')


# ---------------------------------------------------------------------- groups
def case_group(n=(0, 1, 3, 9), prod=(True, False)):
    """a group draws its members, in order, through its transform, with their own pens"""
    def members():
        return [simple(('ElemRectangle', 'ElemCurve', 'ElemEllipse')[i % 3], 'e%d' % i, PenBrush(Pen('ink%d' % i, i + 1), 'wash%d' % i)) for i in range(n)]
    m = tf('m')
    es = members()
    g = Group('g', PenBrush('own', None), False, tf('x'), {'m%d' % i: e for i, e in enumerate(es)})
    log = drawn(g, context(m, prod))
    both = m.copy().compose(tf('x'))
    want = []
    for e in members():
        want.extend(drawn(e, context(both, prod)))
    same([c[:3] for c in log], [c[:3] for c in want], 'the members, each with its own pen')
    same([c[3] for c in log if c[0] == 'line'], [i + 1 if prod else 1 for i in range(n)], 'and line')


MEMBER_NAMES = (('c', 'a', 'b'), ('b', 'c', 'a'), ('z10', 'z9', 'A'), ('2', '10', '1'), ('', ' ', '_'))


def case_member_names(names=MEMBER_NAMES, what=('draw', 'points', 'handles'), form=('dict', 'list')):
    """members are drawn in the order they were given, whatever they are called"""
    def member(i, name):
        return ElemCurve(name, PenBrush(Pen('ink%d' % i, i + 1), 'wash%d' % i), [ControlPoint(Point(10 * i, 1), Vector(1, i + 1), Vector(2, i + 3), 'smooth'),
                                                                                 ControlPoint(Point(10 * i + 4, 5), Vector(i + 1, 1), Vector(i + 2, 2), 'sharp')], True)

    def show(e):
        d = context(Transform())
        if what == 'draw':
            return [c[:3] for c in drawn(e, d)]
        if what == 'points':
            return [(p.points.tolist(), p.penbrush.stroke_color) for p in e.paths(d)]
        return [[(q.c.xy(), q.dl.xy(), q.dr.xy()) for q in p.points] for p in e.control_paths(d)]
    es = [member(i, k) for i, k in enumerate(names)]
    g = Group('g', PenBrush('own'), False, None, {k: e for k, e in zip(names, es)} if form == 'dict' else es)
    want = []
    for i, k in enumerate(names):
        want.extend(show(member(i, k)))
    same(show(g), want, 'in the order given')


FALSY = {'zero': 0, 'empty': '', 'false': False, 'black': (0, 0, 0), 'point': 0.0}


def case_falsy_colours(ink=tuple(FALSY), kind=SIMPLE + ('ElemWithHoles',), prod=(True, False)):
    """every colour that is not None is drawn"""
    c = FALSY[ink]
    for pb, want in ((PenBrush(Pen(c, 2)), ['line']), (PenBrush(None, c), ['area']), (PenBrush(Pen(c, 2), c), ['area', 'line'])):
        if kind == 'ElemWithHoles':
            e = ElemWithHoles('w', pb, ElemRectangle('o', PenBrush('o'), Point(0, 0), Point(9, 9)), [])
        else:
            e = simple(kind, 'e', pb, False)
            if kind != 'ElemRectangleRounded':
                e = ElemRectangle('n', pb, Point(1, 2), Point(3, 4)) if kind == 'ElemRectangle' else ElemEllipse('n', pb, Point(1, 2), Point(3, 4)) if kind == 'ElemEllipse' else e
        log = drawn(e, context(Transform(), prod))
        same([x[0] for x in log], want, 'area and line')
        for x in log:
            check(x[2] == c, 'in its colour')


def case_nested(prod=(True, False)):
    m = tf('m')

    def e():
        return simple('ElemRectangle', 'e', PenBrush(Pen('ink', 2), 'wash'))
    g = Group('g', PenBrush('own'), False, tf('x'), {'k': Group('k', PenBrush('own'), False, tf('y'), {'e': e()})})
    want = drawn(e(), context(m.copy().compose(tf('x')).compose(tf('y')), prod))
    same(drawn(g, context(m, prod)), want, 'through both transforms')


def case_hidden(where=('top', 'nested', 'builder'), cps=(True, False), prod=(True, False)):
    """hidden groups draw nothing at all, their neighbours are drawn"""
    m, d = tf('m'), context(tf('m'), prod)
    d.show_cps = cps
    r = simple('ElemRectangle', 'e', pb_of('both', 3))
    c = simple('ElemCurve', 'c', pb_of('both', 3))
    if where == 'top':
        g = Group('g', PenBrush('own'), True, tf('x'), {'r': r})
        same(drawn(g, d), [], 'nothing')
        g.hidden = False
        check(len(drawn(g, d)) > 0, 'it comes back when shown')
    elif where == 'nested':
        h = Group('h', PenBrush('own'), True, tf('x'), {'r': r})
        g = Group('g', PenBrush('own'), False, None, {'h': h, 'c': c})
        same(drawn(g, d), drawn(Group('g', PenBrush('own'), False, None, {'c': c}), d), 'only the neighbour')
    else:
        b = GroupBuilder('g', PensByShape())
        b.rect('r', pt('p'), pt('q'))
        check(len(drawn(b, d)) > 0, 'drawn')
        b.hide()
        same(drawn(b, d), [], 'nothing')


def case_builder():
    m = tf('m')
    b = GroupBuilder('g', PensByShape(edge=PenBrush(Pen('ink', 2))))
    b.rect('r', pt('p'), pt('q'))
    same(drawn(b, context(m)), drawn(b.the_group, context(m)), 'a builder draws its group')


# ---------------------------------------------------------------------- holes
def holed(pens, n, width=None):
    return ElemWithHoles('w', pb_of(pens, width), simple('ElemCurve', 'o', PenBrush('o')),
                         [simple('ElemRectangle', 'i%d' % i, PenBrush('i')) for i in range(n)], True, tf('x'))


def case_holes_of_any_curve(closed=(True, False), outer=(True, False), pens=('fill', 'both')):
    """the area left out is closed, whether or not the line around it is"""
    pts = ((1, 1), (4, 2), (3, 5))
    def ring(name, closed, by):
        return ElemCurve(name, PenBrush('o'), [ControlPoint(Point(x * by, y * by), Vector(0, 0), Vector(0, 0)) for x, y in pts], closed)
    h = ElemWithHoles('h', pb_of(pens), ring('o', outer, 3), [ring('i', closed, 1)])
    around = outline_of(ring('o', outer, 3), Transform())
    area = [c[1] for c in drawn(h, context(Transform())) if c[0] == 'area']
    same(len(area), 1, 'one area')
    check(all(x in area[0] for x in around) and all(x in area[0] for x in outline_of(ring('i', closed, 1), Transform())), 'of both outlines')
    check(area[0][-1] in (around[-1], around[0]), 'that comes back to the outer one')


def case_holes(pens=PENNED, n=(0, 1, 2), prod=(True, False)):
    """one area with the holes left out, below the lines around the outside and every hole"""
    m, pb = tf('m'), pb_of(pens)
    log = drawn(holed(pens, n), context(m, prod))
    want = (['area'] if pens in ('fill', 'both') else []) + (['line'] * (n + 1) if pens in ('stroke', 'both') else [])
    same([c[0] for c in log], want, 'exactly what pen and brush ask for')
    both = m.copy().compose(tf('x'))
    parts = [outline_of(simple('ElemCurve', 'o', PenBrush('o')), both)] + [outline_of(simple('ElemRectangle', 'i%d' % i, PenBrush('i')), both) for i in range(n)]
    lines = [c for c in log if c[0] == 'line']
    for c, pts in zip(lines, parts):
        along(c[1], pts, 'line')
        same(c[2], word('ink'), 'in the colour of the pen')
        same(c[3], thickness(pb, m, prod), 'in its width')
    for c in log:
        if c[0] == 'area':
            same(c[2], word('wash'), 'in the colour of the brush')
            check(all(p in c[1] for pts in parts for p in pts), 'the area knows every corner')


def case_holes_group(pens=PENNED, before=(0, 1), prod=(True, False)):
    """a hole may be several shapes: each is left out and outlined"""
    m, pb = tf('m'), pb_of(pens)

    def members():
        return [simple('ElemRectangle', 'a', PenBrush('i')), simple('ElemCurve', 'b', PenBrush('i'))]
    first = [simple('ElemRectangle', 'f', PenBrush('i')) for _ in range(before)]
    hole = Group('n', PenBrush('i'), False, tf('y'), members(), None, True)
    e = ElemWithHoles('w', pb, simple('ElemCurve', 'o', PenBrush('o')), first + [hole], True, tf('x'))
    log = drawn(e, context(m, prod))
    n = 3 + before
    want = (['area'] if pens in ('fill', 'both') else []) + (['line'] * n if pens in ('stroke', 'both') else [])
    same([c[0] for c in log], want, 'exactly what pen and brush ask for')
    both = m.copy().compose(tf('x'))
    inner = both.copy().compose(tf('y'))
    parts = [outline_of(simple('ElemCurve', 'o', PenBrush('o')), both)] + [outline_of(s, both) for s in first] + [outline_of(s, inner) for s in members()]
    for c, pts in zip([c for c in log if c[0] == 'line'], parts):
        along(c[1], pts, 'line')
        same(c[2], word('ink'), 'in the colour of the pen')
    for c in log:
        if c[0] == 'area':
            start = 0
            for k, pts in enumerate(parts):
                same(c[1][start:start + len(pts)], pts, 'the area has the outline of each part')
                start += len(pts) + (1 if k else 0)


# ---------------------------------------------------------------------- shadows
class Model(object):
    def __init__(self, fails=False):
        self.seen = []
        self.fails = fails

    def draw(self, dc):
        self.seen.append((dc, dc.draw, dc.shadow_color))
        if self.fails:
            raise ArithmeticError('cannot draw')


def case_shadow_surface(fails=(True, False), color=(True, False), before=(0, 1)):
    """shadows are drawn on their own surface; the context is as before afterwards, even after a failure"""
    d = context(tf('m'))
    surface, model, c = d.draw, Model(fails), word('c')
    for i in range(before):
        d.shadow_draw(Model())
    state = observe(d.matrix), d.prod, d.debug, d.points_per_curve, d.show_cps, d.color, d.crop, d.raw_crop
    failed = raises(ArithmeticError, d.shadow_draw, model, *([c] if color else []))
    check(failed is fails, 'a failure reaches the caller')
    same(len(model.seen), 1, 'drawn once')
    dc, canvas, shade = model.seen[0]
    check(identical(dc, d), 'in this context')
    check(canvas is not surface, 'on another surface')
    if color:
        same(shade, c, 'in the shadow colour asked for')
    else:
        check(shade is not None, 'in a shadow colour')
    check(identical(d.draw, surface), 'the surface is back')
    check(d.shadow_color is None, 'the shadow colour is gone')
    same((observe(d.matrix), d.prod, d.debug, d.points_per_curve, d.show_cps, d.color, d.crop, d.raw_crop), state, 'nothing else changes')
    same(drawn(simple('ElemRectangle', 'e', pb_of('fill')), d)[0][2], word('wash'), 'later shapes have their own colours')


def case_shadow_colours(kind=SIMPLE, pens=('fill', 'both', 'clear', 'edge_clear', 'stroke')):
    """in a shadow every fill but transparent has the shadow colour; geometry is the same"""
    m = tf('m')
    assume(word('wash') != TRANSPARENT)
    d, plain = context(m), context(m)
    d.shadow_color = (1, 2, 3, 4)
    log, want = drawn(simple(kind, 'e', pb_of(pens)), d), drawn(simple(kind, 'e', pb_of(pens)), plain)
    same([(c[0], c[1]) for c in log], [(c[0], c[1]) for c in want], 'the same geometry')
    for c in log:
        if c[0] == 'area':
            same(c[2], TRANSPARENT if 'clear' in pens else (1, 2, 3, 4), 'shadow, but holes stay holes')


INKS = ('red', 'transparent', (1, 2, 3), (1, 2, 3, 128), (1, 2, 3, 0), (0, 0, 0, 255), (0, 0, 0, 1), (255, 255, 255, 254), 0, 255)


def case_shadow_inks(ink=INKS, kind=('ElemRectangle', 'ElemCurve'), prod=(True, False)):
    """whatever the fill is, translucent or opaque: the shadow has the shadow colour, only transparent stays"""
    m = tf('m')
    d = context(m, prod)
    d.shadow_color = (9, 8, 7, 6)
    log = drawn(simple(kind, 'e', PenBrush(None, ink)), d)
    same([c[2] for c in log if c[0] == 'area'], [ink if ink == TRANSPARENT else (9, 8, 7, 6)], 'the shadow colour')


MODES = {'prod': {}, 'draft': {'prod': False}, 'shadow': {'shadow_color': (1, 2, 3, 4)}, 'draft shadow': {'prod': False, 'shadow_color': (1, 2, 3, 4)},
         'debug': {'debug': True}}
TEAM = ('clear', 'fill', 'both', 'stroke', 'edge_clear', 'none')


def moded(m, mode):
    d = context(m)
    for k, v in MODES[mode].items():
        setattr(d, k, v)
    return d


def case_group_members_alone(mode=tuple(MODES), own=('stroke', 'fill', 'clear'), depth=(1, 2)):
    """whatever the mode, and whatever pen the group has, its members are drawn as each would be on its own"""
    m, x = Transform((2, 0, 1, 0, 2, 3)), Transform((1, 0, 5, 0, 1, 7))
    assume(word('wash') != TRANSPARENT)
    make = [ElemRectangle('n%d' % i, pb_of(p, 3), Point(i, 0), Point(i + 20, 30)) for i, p in enumerate(TEAM)]
    each = [drawn(e, moded(m.copy().compose(x), mode)) for e in make]
    g = Group('g', pb_of(own, 1), elems=make, xform=x, closed=True)
    if depth == 2:
        g = Group('h', pb_of('both', 2), elems=[g], closed=True)
    same(drawn(g, moded(m, mode)), [c for log in each for c in log], 'member by member')


# ---------------------------------------------------------------------- control points
def square(c, r=5):
    return [(c[0] - r, c[1] - r), (c[0] + r, c[1] + r)]


def case_control_points(kind=SIMPLE + ('OpenCurve',), n=(1,)):
    """control points are marked where they are, below the shape"""
    m, e = tf('m'), simple(kind, 'e', pb_of('stroke', 2))
    d = context(m)
    d.show_cps = True
    log = drawn(e, d)
    marks = []
    for p in e.control_paths(context(m)):
        for c in p.points:
            if isinstance(c, ControlPoint):
                marks.append((c.c.xy(), c.l.xy(), c.r.xy()))
            else:
                marks.append((c.xy(),))
    check(len(marks) > 0, 'there are control points')
    boxes = [c[1] for c in log if c[0] == 'rectangle']
    same(boxes, [square(k[0]) for k in marks], 'a square around every control point')
    same([c[1] for c in log if c[0] == 'ellipse'], [square(h) for k in marks for h in k[1:]], 'a circle around every handle')
    spokes = [c[1] for c in log[:-1] if c[0] == 'line']
    same(spokes, [[k[0], h] for k in marks for h in k[1:]], 'a spoke to every handle')
    same(log[-1][:3:2], ('line', word('ink')), 'the shape comes last')


def case_control_points_group():
    m = tf('m')
    g = Group('g', PenBrush('own'), False, tf('x'), {'e': simple('ElemRectangle', 'e', PenBrush('ink'))})
    d, both = context(m), context(m.copy().compose(tf('x')))
    d.show_cps = both.show_cps = True
    same([c[:2] for c in drawn(g, d)], [c[:2] for c in drawn(simple('ElemRectangle', 'e', PenBrush('ink')), both)], 'through the transform of the group')


def case_control_points_off(kind=SIMPLE):
    log = drawn(simple(kind, 'e', pb_of('both', 2)), context(tf('m')))
    same([c[0] for c in log], ['area', 'line'], 'no marks unless asked for')


# ---------------------------------------------------------------------- debugging marks
def case_debug(kind=SIMPLE, pens=('stroke', 'both', 'fill'), width=(10, 3, 0), prod=(True, False)):
    """thick lines are marked at every point of the outline; the shape itself is drawn as ever"""
    m, e = tf('m'), simple(kind, 'e', pb_of(pens, width))
    d = context(m, prod, True)
    log = drawn(e, d)
    plain = drawn(simple(kind, 'e', pb_of(pens, width)), context(m, prod))
    same(log[:len(plain)], plain, 'the shape as ever')
    extra = log[len(plain):]
    pts = outline_of(simple(kind, 'e', pb_of(pens, width)), m) if width == 10 and pens != 'fill' else []
    same([(c[0], c[1]) for c in extra], [('ellipse', square(p, 5)) for p in pts], 'round marks as wide as the line')
    check(all(c[2] == word('ink') for c in extra), 'in the colour of the pen')


# ---------------------------------------------------------------------- the context itself
def case_context_line(width=(True, False)):
    m, d = tf('m'), context(tf('m'))
    x1, y1, x2, y2 = real('x1'), real('y1'), real('x2'), real('y2')
    if width:
        d.line(x1, y1, x2, y2, 'red', 3)
    else:
        d.line(x1, y1, x2, y2)
    same(d.draw.log, [('line', [apply6(m, x1, y1), apply6(m, x2, y2)], 'red' if width else 'black', 3 if width else 1)], 'a line between the images of both ends')


def case_context_polygon(form=('points', 'tuples'), n=(2, 3, 5), colours=(True, False)):
    m, d = tf('m'), context(tf('m'))
    ps = [pt('p%d' % i) for i in range(n)]
    arg = ps if form == 'points' else [p.xy() for p in ps]
    if colours:
        d.polygon(arg, 'f', 'o')
    else:
        d.polygon(arg)
    same([c[:4] for c in d.draw.log], [('area', [apply6(m, *p.xy()) for p in ps], 'f' if colours else 'blue', 'o' if colours else 'black')], 'the images of the corners')


def case_context_grid():
    m = Transform((2, 0, 5, 0, -3, 50))
    d = context(m)
    d.grid()
    lines = d.draw.log
    check(all(c[0] == 'line' for c in lines), 'lines only')
    for c, want in ((lines[0], [(1000, 0), (-1000, 0)]), (lines[1], [(0, 1000), (0, -1000)])):
        same(c[1], [apply6(m, *p) for p in want], 'the axes')
    for r in (100, 50, 10):
        ring = [(-r, r), (r, r), (r, -r), (-r, -r)]
        sides = [c[1] for c in lines[2:] if any(same_xy(c[1], [apply6(m, *a), apply6(m, *b)]) or same_xy(c[1], [apply6(m, *b), apply6(m, *a)])
                                                for a, b in zip(ring, ring[1:] + ring[:1]))]
        same(len(sides), 4, 'a square of that size')


def same_xy(a, b):
    return a == b


def case_context_new(matrix=(True, False), prod=(True, False), crop=(True, False)):
    m = tf('m') if matrix else None
    c = (1, 2, 3, 4)
    d = DrawingContext(None, m, c if crop else None, prod)
    check(d.prod is prod, 'as asked')
    if matrix:
        check(identical(d.matrix, m), 'with the matrix given')
    else:
        same(d.matrix.as_6tuple(), (1, 0, 0, 0, 1, 0), 'no map by default')
    check(d.shadow is None and d.shadow_color is None and not d.show_cps and not d.showall, 'plain drawing by default')
    if crop:
        if not matrix:
            same(d.crop, c, 'cropped as asked')
    else:
        check(not d.crop, 'not cropped')


def case_context_crop_box(box=((1, 2, 3, 4), (3, 4, 1, 2), (3, 2, 1, 4))):
    """the crop is fixed when the context is made, later maps do not move it"""
    m = Transform((2, 0, 5, 0, -3, 50))
    d = DrawingContext(None, m, box)
    same(d.crop, (7, 38, 11, 44), 'the pixels of the box, low corner first')
    d.matrix.translate(10, 10)
    same(d.crop, (7, 38, 11, 44), 'fixed')
    same(d.crop_to_pixels(box), (17, 48, 21, 54), 'another box is mapped by the current map')


def case_deep_drawing(depth=(4, 6), hidden=(None, 2), prod=(True, False)):
    """through all transforms of a deep model, hidden levels cutting off everything below"""
    m = tf('m')

    def e(k='e'):
        return simple('ElemRectangle', k, PenBrush(Pen('ink' + k, 2), 'wash' + k))
    tfs = [tf_scale('x%d' % i) for i in range(depth)]
    g = e()
    for i in reversed(range(depth)):
        g = Group('g%d' % i, PenBrush('own'), i == hidden, tf_scale('x%d' % i), {'s': e('s%d' % i), 'e': g})
    want, both = [], m.copy()
    for i in range(depth):
        if i == hidden:
            break
        both.compose(tfs[i])
        want.extend(drawn(e('s%d' % i), context(both.copy(), prod)))
    else:
        want.extend(drawn(e(), context(both, prod)))
    same(drawn(g, context(m, prod)), want, 'every level in its place, in order')


def case_path_extended(closed=(True, False), times=(1, 2)):
    """a path goes on where it left off; closed additions come back to the place they were left from"""
    have = [(real('ax'), real('ay')), (real('bx'), real('by'))]
    path = Path(PenBrush('red'), False, ImagePath.Path(have))
    want = list(have)
    for i in range(times):
        more = [(real('cx%d' % i), real('cy%d' % i)), (real('dx%d' % i), real('dy%d' % i))]
        path.extend(ImagePath.Path(more), closed=closed)
        want = want + more + ([want[-1]] if closed else [])
    same(path.points.tolist(), want, 'what was there, what was added, and back')
    same((path.penbrush, path.closed), (PenBrush('red'), False), 'otherwise as before')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c23': ('width_absolute', 'width_scaled', 'width_thin'),
    'c11': ('hidden_group', 'draw_space'),
    'c30': ('layers', 'shadow_draw'),
    'c13': ('paths_move_with_matrix', 'own_transform', 'group_paths', 'nested_group_paths', 'holes_paths'),
}
