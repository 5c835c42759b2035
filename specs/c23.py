"""C23: pens, brushes and tables of pens mean what they were given, and drawn widths follow them."""
from specs.prelude import *
from x7.geom.colors import *

KEYS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')
COLOURS = {'word': 'red', 'rgb': (1, 2, 3), 'rgba': (1, 2, 3, 4), 'clear': TRANSPARENT, 'number': 7}


def colour(kind, k):
    if kind == 'any':
        return word(k)
    if kind == 'anyrgb':
        return (integer(k + '.r'), integer(k + '.g'), integer(k + '.b'))
    return COLOURS[kind]


CKINDS = ('any', 'anyrgb', 'word', 'rgba', 'clear', 'number')


# ---------------------------------------------------------------------- brush, pen
def case_brush(kind=CKINDS):
    c = colour(kind, 'c')
    same(Brush(c).color, c, 'the colour given')
    check(Brush(c) == Brush(c), 'equal brushes')


def case_pen(kind=CKINDS, brush=(True, False), width=(True, False)):
    c, w = colour(kind, 'c'), real('w')
    b = Brush(c)
    p = Pen(b if brush else c, w) if width else Pen(b if brush else c)
    same(p.brush.color, c, 'the colour given')
    same(p.width, w if width else 0, 'the width given, thinnest otherwise')
    if brush:
        check(identical(p.brush, b), 'with the brush given')


def case_pen_replace(what=('nothing', 'width', 'brush', 'both', 'zero')):
    p = Pen(word('c'), real('w'))
    before = observe(p)
    b, w = Brush(word('d')), real('v')
    q = {'nothing': lambda: p.replace(), 'width': lambda: p.replace(width=w), 'brush': lambda: p.replace(b),
         'both': lambda: p.replace(b, w), 'zero': lambda: p.replace(width=0)}[what]()
    same(q.brush.color, word('d') if what in ('brush', 'both') else word('c'), 'colour')
    same(q.width, w if what in ('width', 'both') else 0 if what == 'zero' else real('w'), 'width')
    check(type(q) is Pen and not identical(q, p), 'a new pen')
    same(observe(p), before, 'the pen is left alone')


# ---------------------------------------------------------------------- pen and brush
PENS = ('none', 'pen', 'colour', 'pair', 'rgb')
BRUSHES = ('none', 'brush', 'colour', 'rgb', 'clear')


def pen_arg(kind):
    """(argument, expected colour, expected width)"""
    c, w = word('pc'), real('pw')
    return {'none': (None, None, None), 'pen': (Pen(c, w), c, w), 'colour': (c, c, 0), 'pair': ((c, w), c, w),
            'rgb': ((1, 2, 3), (1, 2, 3), 0)}[kind]


def brush_arg(kind):
    c = word('bc')
    return {'none': (None, None), 'brush': (Brush(c), c), 'colour': (c, c), 'rgb': ((4, 5, 6), (4, 5, 6)),
            'clear': (TRANSPARENT, TRANSPARENT)}[kind]


def describes(pb, pen, brush, msg):
    """pb strokes with pen=(colour, width) and fills with brush"""
    pc, pw = pen
    check(pb.stroked is (pc is not None), msg + ': stroked exactly when there is a pen')
    check(pb.filled is (brush is not None), msg + ': filled exactly when there is a brush')
    same(pb.stroke_color, pc, msg + ': stroke colour')
    same(pb.fill_color, brush, msg + ': fill colour')
    if pc is not None:
        same(pb.pen.width, pw, msg + ': width')


def case_penbrush(pen=PENS, brush=BRUSHES):
    (p, pc, pw), (b, bc) = pen_arg(pen), brush_arg(brush)
    pb = PenBrush(p, b)
    describes(pb, (pc, pw), bc, 'as given')
    if pen == 'pen':
        check(identical(pb.pen, p), 'with the pen given')
    if brush == 'brush':
        check(identical(pb.brush, b), 'with the brush given')
    if brush == 'none':
        describes(PenBrush(p), (pc, pw), None, 'no brush by default')


CODES = {'text': 'red', 'rgb': (1, 2, 3), 'rgba': (1, 2, 3, 4), 'number': 255, 'zero': 0, 'empty': '', 'clear': TRANSPARENT, 'false': False}
SIZES = (0, 1, 2.5, -3)


def case_colour_forms(ink=tuple(CODES), wash=tuple(CODES), w=SIZES):
    """colours of every form, given as a pen, a colour or a pair of colour and width"""
    c, b = CODES[ink], CODES[wash]
    for pb in (PenBrush(Pen(c, w), b), PenBrush((c, w), b), PenBrush(Pen(c, w), Brush(b)), PenBrush('x', 'y').replace(pen=Pen(c, w), brush=Brush(b)),
               PenBrush('x', 'y').replace(pen=(c, w), brush=b), PenBrush(Pen(c, 99), b).replace(width=w)):
        describes(pb, (c, w), b, 'as given')
        check(type(pb.stroke_color) is type(c) and type(pb.fill_color) is type(b), 'the colours are as given')
    describes(PenBrush(c), (c, 0), None, 'a colour alone')
    describes(PenBrush('x', 'y').replace(pen=c), (c, 0), 'y', 'another pen')
    describes(PenBrush(Pen('x', 7), 'y').replace(brush=b), ('x', 7), b, 'another brush')
    describes(PenBrush(None, None).replace(pen=c, brush=b), (c, 0), b, 'pen and brush where there were none')
    for p in (Pen('x', 7).replace(c), Pen('x', 7).replace(Brush(c)), Pen('x', 7).replace(brush=c)):
        same((p.brush.color, p.width), (c, 7), 'another colour')
    describes(PenBrush(None, b), (None, None), b, 'a brush alone')


def case_penbrush_replace(pen=('none', 'pen'), brush=('none', 'colour'), what=('nothing', 'pen', 'width', 'zero', 'brush', 'pen_brush', 'width_brush')):
    (p, pc, pw), (b, bc) = pen_arg(pen), brush_arg(brush)
    pb = PenBrush(p, b)
    before = observe(pb)
    n, w, nb = Pen(word('nc'), real('nw')), real('w'), Brush(word('nb'))
    kw = {}
    if what in ('pen', 'pen_brush'):
        kw['pen'] = n
    if what in ('width', 'width_brush'):
        kw['width'] = w
    if what == 'zero':
        kw['width'] = 0
    if 'brush' in what:
        kw['brush'] = nb
    q = pb.replace(**kw)
    want_pen = (word('nc'), real('nw')) if 'pen' in kw else (pc, pw if 'width' not in kw else kw['width'])
    describes(q, want_pen, word('nb') if 'brush' in kw else bc, 'replaced')
    check(not identical(q, pb), 'a new one')
    same(observe(pb), before, 'the original is left alone')


def case_penbrush_replace_forms(form=('colour', 'pair', 'brush_colour')):
    pb = PenBrush(Pen('a', 2), 'b')
    c, w = word('c'), real('w')
    if form == 'colour':
        describes(pb.replace(pen=c), (c, 0), 'b', 'pen by colour')
    elif form == 'pair':
        describes(pb.replace(pen=(c, w)), (c, w), 'b', 'pen by colour and width')
    else:
        describes(pb.replace(brush=c), ('a', 2), c, 'brush by colour')


# ---------------------------------------------------------------------- widths
def case_width_absolute():
    """a positive width is in pixels, whatever the map"""
    w = pos('w')
    same(PenBrush(Pen('ink', w)).stroke_width(tf('t')), w, 'pixels')


def case_width_scaled():
    """a negative width follows the map"""
    w, t = pos('w'), tf('t')
    same(PenBrush(Pen('ink', -w)).stroke_width(t), t.transform_width(w), 'scaled by the map')
    s = pos('s')
    u = Transform().scale(s, s).translate(real('x'), real('y'))
    same(PenBrush(Pen('ink', -w)).stroke_width(u), w * s, 'proportional to the scale')
    same(PenBrush(Pen('ink', -w)).stroke_width(Transform()), w, 'as given without a map')


def case_width_thin():
    same(PenBrush(Pen('ink', 0)).stroke_width(tf('t')), 0, 'thinnest')
    same(PenBrush(Pen('ink')).stroke_width(tf('t')), 0, 'thinnest by default')
    check(PenBrush(None, 'wash').stroke_width(tf('t')) is None, 'no pen, no width')


def case_width_queries():
    t, pb = tf('t'), penbrush('p')
    before = observe(t, pb)
    pb.stroke_width(t)
    (pb.filled, pb.stroked, pb.fill_color, pb.stroke_color, str(pb))
    same(observe(t, pb), before, 'asking changes nothing')


# ---------------------------------------------------------------------- tables
def table(cls):
    if cls == 'PensByShape':
        return PensByShape, [PenBrush(Pen(word('c%d' % i), real('w%d' % i)), word('f%d' % i)) for i in range(5)]
    return ColorsByShape, [Colors(word('c%d' % i), word('f%d' % i)) for i in range(5)]


def case_table(cls=('PensByShape', 'ColorsByShape'), how=('keywords', 'positions')):
    make, vs = table(cls)
    ps = make(**dict(zip(KEYS, vs))) if how == 'keywords' else make(*vs)
    check(all(identical(ps[k], v) for k, v in zip(KEYS, vs)), 'each kind of shape has its own')
    same(tuple(ps.keys()), KEYS, 'these kinds')
    check(all(identical(getattr(ps, k), ps[k]) for k in KEYS), 'by name and by key')


def case_table_partial(cls=('PensByShape', 'ColorsByShape'), given=KEYS):
    make, vs = table(cls)
    ps = make(**{given: vs[0]})
    check(identical(ps[given], vs[0]), 'the one given')
    for k in KEYS:
        if k != given:
            if cls == 'PensByShape':
                describes(ps[k], ('black', 1), None, 'a black line otherwise')
            else:
                same((ps[k].outline, ps[k].fill), ('black', None), 'a black line otherwise')
    other = make()
    check(not identical(other[given], vs[0]), 'other tables are not affected')


def case_table_unknown(cls=('PensByShape', 'ColorsByShape'), key=('unknown', 'keys', 'make', '', 'Edge', None, 0)):
    make, vs = table(cls)
    check(raises(ValueError, lambda: make(*vs)[key]), 'an unknown kind is refused')


def case_pens_make(draft=(True, False), kind=('any', 'rgba'), explicit=(True, False)):
    c, f, t, w = colour(kind, 'c'), word('f'), word('t'), real('w')
    ps = PensByShape.make(draft, c, f, t, w) if explicit else PensByShape.make(draft, c)
    if not explicit:
        f, t, w = TRANSPARENT, TRANSPARENT, 0
    if draft:
        for k in KEYS:
            describes(ps[k], (c, 0), None, 'thin lines in a draft')
    else:
        describes(ps['edge'], (c, w), None, 'edge: a line')
        describes(ps['filled'], (None, None), c, 'filled: no line')
        describes(ps['clear'], (None, None), t, 'clear: transparent, no line')
        describes(ps['edge_filled'], (c, w), f, 'line and fill')
        describes(ps['edge_clear'], (c, w), t, 'line and transparent')


def case_colors_make(draft=(True, False), kind=('any', 'rgba'), explicit=(True, False)):
    c, f, t = colour(kind, 'c'), word('f'), word('t')
    assume(c != NOCOLOR) if kind == 'any' else None
    assume(f != NOCOLOR)
    assume(t != NOCOLOR)
    cs = ColorsByShape.make(draft, c, f, t) if explicit else ColorsByShape.make(draft, c)
    if not explicit:
        f, t = TRANSPARENT, TRANSPARENT
    want = {k: (c, None) for k in KEYS} if draft else {
        'edge': (c, None), 'filled': (None, c), 'clear': (None, t), 'edge_filled': (c, f), 'edge_clear': (c, t)}
    for k in KEYS:
        same((cs[k].outline, cs[k].fill), want[k], 'the standard mapping for ' + k)


def case_make_default():
    for k in KEYS:
        describes(PensByShape.make()[k], ('white', 0), None, 'a white draft by default')
        same((ColorsByShape.make()[k].outline, ColorsByShape.make()[k].fill), ('white', None), 'a white draft by default')


def case_replace_width(zero=(True, False)):
    ps = PensByShape(edge=PenBrush(Pen(word('c0'), real('w0'))), filled=PenBrush(None, word('f')), clear=PenBrush(None, TRANSPARENT),
                     edge_filled=PenBrush(Pen(word('c1'), real('w1')), word('g')), edge_clear=PenBrush(Pen(word('c2'), real('w2')), TRANSPARENT))
    before = observe(ps)
    w = 0 if zero else real('w')
    qs = ps.replace_width(w)
    describes(qs['edge'], (word('c0'), w), None, 'edge')
    describes(qs['filled'], (None, None), word('f'), 'filled stays without a line')
    describes(qs['clear'], (None, None), TRANSPARENT, 'clear stays without a line')
    describes(qs['edge_filled'], (word('c1'), w), word('g'), 'edge_filled')
    describes(qs['edge_clear'], (word('c2'), w), TRANSPARENT, 'edge_clear')
    same(observe(ps), before, 'the original table is left alone')


# ---------------------------------------------------------------------- plain colours
def case_colors(outline=('any', 'none', 'no'), fill=('any', 'none', 'no', 'clear')):
    vals = {'none': None, 'no': NOCOLOR, 'clear': TRANSPARENT}
    o, f = word('o'), word('f')
    assume(o != NOCOLOR)
    assume(f != NOCOLOR)
    if fill == 'any':
        assume(f != '')
    o = vals.get(outline, o)
    f = vals.get(fill, f)
    c = Colors(o, f)
    same(c.outline, None if outline == 'no' else o, 'the outline given, none for NoColor')
    same(c.fill, None if fill == 'no' else f, 'the fill given, none for NoColor')
    check(c.filled is (fill in ('any', 'clear')), 'filled exactly when there is a fill')


def case_colors_forms(outline=tuple(CODES), fill=tuple(CODES)):
    if fill == 'empty':
        return
    c = Colors(CODES[outline], CODES[fill])
    check(c.outline == CODES[outline] and c.fill == CODES[fill], 'as given')
    check(c.filled is True, 'filled, whatever the colour')


def case_colors_words_read(outline=(True, False), fill=(True, False)):
    """the words for no colour and a clear one, wherever they were read from"""
    said, clear = word('said'), TRANSPARENT
    assume(said == NOCOLOR)
    c = Colors(said if outline else 'red', said if fill else clear)
    same((c.outline, c.fill), (None if outline else 'red', None if fill else TRANSPARENT), 'no colour is no colour')
    check(c.filled is (not fill), 'filled exactly when there is a fill')


def case_colors_default():
    same((Colors().outline, Colors().fill, Colors().filled), ('black', None, False), 'a black outline')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c24': ('line_width', 'falsy_colours'),
    'c21': ('builder_shapes',),
}
