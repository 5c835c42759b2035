"""C30: a finished picture is background, shadow and layer; frames are cropped, scaled and saved whole and in order.

Pictures are stand-ins that remember how they were made (PIL is not interpreted).
"""
from specs.prelude import *
from x7.geom.drawing import DrawingContext
from x7.geom.anim import Builder, AnimationHolder, Animation
from x7.geom.anim_simple import SimpleAnimation, StepContext
from x7.geom.model import GroupBuilder


class Pic(object):
    """stands for PIL.Image.Image; what: how it was made"""
    def __init__(self, mode, size, what, box=None):
        self.mode, self.size, self.what, self.box = mode, size, what, box
        self.info = {}

    @property
    def width(self):
        return self.size[0]

    @property
    def height(self):
        return self.size[1]

    def convert(self, mode, *a, **kw):
        if a or kw:
            give_up('conversion with options')
        return Pic(mode, self.size, ('converted', mode, self.what) if mode != self.mode else self.what)

    def copy(self):
        return Pic(self.mode, self.size, self.what)

    def crop(self, box=None):
        if box is None:
            return self.copy()
        return Pic(self.mode, (box[2] - box[0], box[3] - box[1]), ('crop', tuple(box), self.what))

    def alpha_composite(self, im, dest=(0, 0), source=(0, 0)):
        if (dest, source) != ((0, 0), (0, 0)):
            give_up('composition with offsets')
        self.what = ('over', self.what, im.what)

    def getbbox(self, **kw):
        return self.box

    def resize(self, size, resample=None, **kw):
        return Pic(self.mode, tuple(size), ('resize', tuple(size), self.what))

    def split(self):
        return tuple(Pic('L', self.size, ('channel', c, self.what)) for c in self.mode)

    def getchannel(self, c):
        return Pic('L', self.size, ('channel', c if isinstance(c, str) else self.mode[c], self.what))

    def point(self, f, mode=None):
        if not callable(f):
            give_up('point with a table')
        p = Pic('L', self.size, ('point', self.what))
        p.f = f
        return p

    def putalpha(self, a):
        self.alpha = a

    def save(self, *a, **kw):
        SAVED.append((self, a, kw))

    def show(self, *a, **kw):
        SHOWN.append(self)

    def __getattr__(self, name):
        give_up('picture.' + name)


SAVED = []
SHOWN = []


class Brush(object):
    """stands for ImageDraw"""
    def __init__(self, im, mode=None):
        self.im = im


def new(mode, size, color=0):
    return Pic(mode, tuple(size), ('blank', mode, tuple(size), color))


def over(a, b):
    assert a.mode == 'RGBA' and b.mode == 'RGBA'
    same(a.size, b.size, 'pictures of one size are laid over each other')
    return Pic('RGBA', a.size, ('over', a.what, b.what))


def studio():
    stand_in('PIL.Image.new', new)
    stand_in('PIL.Image.alpha_composite', over)
    stand_in('PIL.ImageDraw.ImageDraw', Brush)
    stand_in('PIL.ImageDraw.Draw', Brush)


def photo(k, mode='RGBA', size=(200, 100)):
    return Pic(mode, size, ('photo', k))




def blank(what, size=(200, 100)):
    """a fully transparent picture"""
    return what in (('blank', 'RGBA', size, (0, 0, 0, 0)), ('blank', 'RGBA', size, 0))


# ---------------------------------------------------------------------- one picture
def case_background(mode=('RGBA', 'RGB', 'L', 'P', 'LA')):
    """any picture can be the background"""
    studio()
    im = photo('a', mode)
    d = DrawingContext(im, tf('m'))
    want = ('photo', 'a') if mode == 'RGBA' else ('converted', 'RGBA', ('photo', 'a'))
    same((d.background.mode, d.background.size, d.background.what), ('RGBA', (200, 100), want), 'the background is the picture, with transparency')
    check(blank(d.layer.what), 'the layer is transparent and as large')
    check(d.draw.im is d.layer, 'drawing goes to the layer')
    out = d.image()
    check(out.what[0] == 'over' and out.what[1] == want and blank(out.what[2]), 'the layer over the background')
    same((im.mode, im.what), (mode, ('photo', 'a')), 'the given picture is not changed')


def case_default_background():
    studio()
    d = DrawingContext(None, None)
    same((d.background.mode, d.background.size), ('RGBA', (1000, 1000)), 'a large picture by default')
    same(d.background.what[3], 'white', 'white')
    same(d.layer.size, (1000, 1000), 'and a layer as large')


class Model(object):
    """draws by marking what it draws on"""
    def __init__(self, name):
        self.name = name

    def draw(self, dc):
        im = dc.draw.im
        im.what = ('drawn', self.name, im.what)



def layers(what):
    """the pictures laid over each other, from the bottom up"""
    return layers(what[1]) + layers(what[2]) if what[0] == 'over' else [what]


def case_layers(shadow=(False, True), drawn=(False, True)):
    """background, shadow, layer, from the bottom up; drawing never marks the background"""
    studio()
    im = photo('a')
    d = DrawingContext(im, tf('m'))
    if drawn:
        Model('x').draw(d)
    if shadow:
        d.shadow = Pic('RGBA', (200, 100), 'shadow')
    got = layers(d.image().what)
    same(got[0], ('photo', 'a'), 'the background at the bottom')
    same(len(got), 3 if shadow else 2, 'nothing else')
    if shadow:
        same(got[1], 'shadow', 'the shadow under the layer')
    if drawn:
        check(got[-1][0] == 'drawn' and blank(got[-1][2]), 'the layer on top')
    else:
        check(blank(got[-1]), 'an empty layer')
    same(layers(d.image().what), got, 'the same picture again')
    same(im.what, ('photo', 'a'), 'the given picture is not marked')


def case_crop(how=('none', 'context', 'box', 'no', (0, 0, 10, 10), (0, 3, 10, 10), (-2, 0, 0, 4), (10, 10, 0, 0))):
    studio()
    m = Transform((2, 0, 5, 0, -3, 50))
    d = DrawingContext(photo('a'), m, (1, 2, 3, 4) if how in ('context', 'no') else None)
    if how == 'no':
        out = d.image(crop=False)
    elif how == 'box':
        out = d.image(crop=(3, 4, 1, 2))
    elif isinstance(how, tuple):
        (x, y, u, v) = how
        for d in (d, DrawingContext(photo('a'), m, (1, 2, 3, 4))):
            out = d.image(crop=how)
            want = [m.transform(x, y), m.transform(u, v)]
            lo, hi = [min(p[k] for p in want) for k in (0, 1)], [max(p[k] for p in want) for k in (0, 1)]
            same((out.size, out.what[:2]), ((hi[0] - lo[0], hi[1] - lo[1]), ('crop', tuple(lo + hi))), 'cropped to the pixels of the given box')
        return
    else:
        out = d.image()
    if how in ('context', 'box'):
        same((out.size, out.what[:2]), ((4, 6), ('crop', (7, 38, 11, 44))), 'cropped to the pixels of the box')
    else:
        same((out.size, out.what[0]), ((200, 100), 'over'), 'not cropped')


def case_alloc_shadow():
    studio()
    d = DrawingContext(photo('a'), tf('m'))
    d.alloc_shadow((7, 8))
    check(d.shadow.mode == 'RGBA' and blank(d.shadow.what), 'a transparent picture of the size of the layer')
    s = d.shadow
    d.alloc_shadow()
    check(d.shadow is s, 'a shadow that is there is kept')
    same(d.shadow_offset, (7, 8), 'with its offset')
    d2 = DrawingContext(photo('a'), tf('m'))
    check(d2.shadow is None and d2.image().what[0] == 'over', 'contexts have shadows of their own')


# ---------------------------------------------------------------------- frames of a builder
def builder(images=None, **kw):
    b = Builder(photo('base'), tf('m'), GroupBuilder('g', PensByShape()).the_group, **kw)
    if images is not None:
        b.images = images
    return b


def case_frame():
    """a frame is the model at its time over the base"""
    studio()
    b = Builder(photo('base'), tf('m'), Model('x'))
    for i in range(2):
        got = layers(b.build_one(real('t')).what)
        same(got[0], ('photo', 'base'), 'over the base')
        check(len(got) == 2 and got[1][0] == 'drawn' and blank(got[1][2]), 'the model, drawn once')
    same(b.base.what, ('photo', 'base'), 'the base stays clean')


def case_holder_filled_later(given=('empty', 'filled', 'none')):
    """animations may be added after the builder was made"""
    studio()
    log = []

    class Ticker(Animation):
        def __init__(self, tag):
            self.tag = tag

        def update(self, t):
            log.append((self.tag, t))
    h = AnimationHolder()
    if given == 'filled':
        h.add(Ticker('first'))
    b = Builder(photo('base'), tf('m'), Model('x'), h if given != 'none' else None)
    (h if given != 'none' else b.animations).add(Ticker('later'))
    t = real('t')
    b.build_one(t)
    same(log, ([('first', t)] if given == 'filled' else []) + [('later', t)], 'every animation, in the order added')
    b.build_all(2)
    same(log[-1], ('later', 0.5), 'for every frame')


def case_frames_apart():
    studio()
    b = Builder(photo('base'), tf('m'), Model('x'))
    out = b.build_all(3)
    same(len(out), 3, 'as many frames as steps')
    for i in range(3):
        for j in range(i):
            check(out[i] is not out[j], 'each a picture of its own')
        same(layers(out[i].what)[1][0], 'drawn', 'with the model')
        check(blank(layers(out[i].what)[1][2]), 'and nothing of another frame')


def case_scaled_box(box=((0, 0, 100, 70), (0, 20, 100, 90), (10, 0, 110, 70), (0, 0, 200, 100), (-10, -10, 90, 60), (199, 99, 200, 100), (60, 50, 160, 120)),
                    scale=(1, 2)):
    """cropped to the box, wherever it lies"""
    studio()
    ims = [photo(i, 'RGB') for i in range(2)]
    out = builder(ims).scaled(scale, bbox=box)
    w, h = box[2] - box[0], box[3] - box[1]
    for i in range(2):
        inner = ('crop', box, ('photo', i))
        size = (w // scale, h // scale)
        same((out[i].size, out[i].what), (size, ('resize', size, inner)) if scale != 1 else ((w, h), inner), 'the frame, cropped to the box')


def case_scaled(scale=(1, 2, 5), crop=(True, False), given=(True, False)):
    """every frame, in order, cropped first and then shrunk alike"""
    studio()
    ims = [photo(i, 'RGB') for i in range(3)]
    b = builder(None if given else ims)
    before = [(p.size, p.what) for p in ims]
    kw = {'images': ims} if given else {}
    if crop:
        kw['bbox'] = (10, 20, 110, 90)
    out = b.scaled(scale, **kw)
    same(len(out), 3, 'every frame')
    w, h = (100, 70) if crop else (200, 100)
    for i in range(3):
        inner = ('crop', (10, 20, 110, 90), ('photo', i)) if crop else ('photo', i)
        size = (w // scale, h // scale)
        same((out[i].size, out[i].what), (size, ('resize', size, inner) if scale != 1 else inner), 'the frame, cropped and shrunk')
    same([(p.size, p.what) for p in ims], before, 'the frames themselves are not changed')


def case_binary_alpha(mode=('RGBA', 'RGB')):
    """shrunk frames are either opaque or transparent at a pixel"""
    studio()
    im = photo('a', mode)
    out = Builder.resize_for_gif(im, 50, 25)
    same((out.size, out.mode, out.what), ((50, 25), mode, ('resize', (50, 25), ('photo', 'a'))), 'the picture at the size asked for')
    if mode == 'RGBA':
        a = out.alpha
        same(a.what, ('point', ('channel', 'A', out.what)), 'from its own transparency')
        for v in range(0, 256, 5):
            check(a.f(v) in (0, 255), 'on or off')
        same((a.f(0), a.f(255)), (0, 255), 'and pixels that were on or off stay so')
    same(im.what, ('photo', 'a'), 'the frame itself is not changed')


def case_cover(n=(1, 2, 3, 9), given=(True, False)):
    """the smallest box that covers what is visible in any frame"""
    studio()
    ims = []
    for i in range(n):
        p = photo(i)
        p.box = tuple(real('b%d%s' % (i, k)) for k in 'xyuv') if n < 4 else (i * 5 % 9, i * 4 % 9, 20 + i * 7 % 9, 20 + i * 2 % 9)
        ims.append(p)
    b = builder(None if given else ims)
    got = b.max_bbox(ims) if given else b.max_bbox()
    for k in range(4):
        for p in ims:
            check(got[k] <= p.box[k] if k < 2 else got[k] >= p.box[k], 'covers every frame')
        check(any(got[k] == p.box[k] for p in ims), 'and no more')


# ---------------------------------------------------------------------- simple animations
def simple(f=None, **kw):
    return SimpleAnimation(f or (lambda dc, t: None), image_size=(200, 100), draw_bbox=(-10, -10, 10, 10), **kw)


def case_simple_frames(steps=(1, 3, 12)):
    studio()
    lo, hi = real('lo'), real('hi')
    assume(lo != hi)

    def draw(dc, t):
        dc.draw.im.what = ('drawn', t, dc.draw.im.what)
    sa = simple(draw, steps=steps, t_low=lo, t_high=hi)
    sa.animate()
    same(len(sa.images), steps + 1, 'a frame for each time')
    for i, im in enumerate(sa.images):
        bottom, top = layers(im.what)
        same(im.size, (200, 100), 'frames of the size asked for')
        same(bottom[:3], ('blank', 'RGBA', (200, 100)), 'on a plain background')
        same(bottom[3], sa.background, 'of its colour')
        same(top[:2], ('drawn', lo + (hi - lo) * i / steps), 'what was drawn at its time')
        check(blank(top[2]), 'and nothing of another frame')
    check(SHOWN == [], 'nothing is shown unless asked for')


def case_simple_more(steps=(1, 3), first=('frame', 'animation', 'other list')):
    """animating when there are frames already: every time gets a frame of its own, after those"""
    studio()
    seen = []

    def draw(dc, t):
        seen.append(t)
        dc.draw.im.what = ('drawn', t, dc.draw.im.what)
    sa = simple(draw, steps=steps, t_low=1, t_high=3)
    had = 1
    if first == 'frame':
        with sa.next_step():
            pass
    elif first == 'animation':
        sa.animate()
        had = steps + 1
    else:
        sa.images.extend([photo('title')])
    before = [(p.size, p.what) for p in sa.images]
    seen.clear()
    sa.animate()
    same(seen, [1 + 2 * i / steps for i in range(steps + 1)], 'every time, in order')
    same(len(sa.images), had + steps + 1, 'each a frame, after those there are')
    same([(p.size, p.what) for p in sa.images[:had]], before, 'which stay as they are')


def case_simple_show():
    studio()
    sa = simple(steps=2, show_steps=True)
    sa.animate()
    same([im.what for im in SHOWN], [im.what for im in sa.images], 'every frame is shown')


def case_save(n=(1, 2, 4, 12), seconds=(0.1, 0.25, 2), name=('given', 'default')):
    """every frame is saved in order, for the time asked for, over and over"""
    studio()
    ims = [photo(i) for i in range(n)]
    sa = simple(frame_display_time=seconds)
    sa.images = list(ims)
    out = '/somewhere/x.gif' if name == 'given' else None
    sa.save_animation(out)
    files = [s for s in SAVED if s[2].get('save_all')]
    same(len(files), 1, 'one animation')
    im, a, kw = files[0]
    same([im.what] + [p.what for p in kw['append_images']], [p.what for p in ims], 'every frame, in order')
    if out:
        same(a, (out,), 'where asked for')
    same((kw['duration'], kw['loop']), (int(seconds * 1000), 0), 'each for its time, over and over')
    same([p.what for p in sa.images], [p.what for p in ims], 'the frames are kept')


class Shady(object):
    """draws its shadow, and may fail on the way"""
    def __init__(self, fails):
        self.fails = fails
        self.seen = []

    def draw(self, dc):
        self.seen.append((dc.draw.im is dc.shadow, dc.shadow_color))
        dc.draw.im.what = ('drawn', 'shady', dc.draw.im.what)
        if self.fails:
            raise KeyError('half way')


class Shade(Pic):
    """a picture that shadows are made of"""
    def split(self):
        return tuple(Shade('L', self.size, ('channel', c, self.what)) for c in self.mode)

    def getextrema(self):
        return (3, ('brightest', self.what))

    def paste(self, im, box=None, mask=None):
        if mask is not None or box is not None and tuple(box) != (0, 0) + tuple(self.size):
            give_up('paste of a part')
        self.what = ('full of', im)

    def filter(self, f):
        return Shade(self.mode, self.size, ('filter', self.what))


class Brightness(object):
    def __init__(self, im):
        self.im = im

    def enhance(self, f):
        return Shade(self.im.mode, self.im.size, ('enhanced', self.im.what))


def shades():
    studio()
    stand_in('PIL.Image.new', lambda mode, size, color=0: Shade(mode, tuple(size), ('blank', mode, tuple(size), color)))
    stand_in('PIL.ImageChops.offset', lambda im, x, y=None: Shade(im.mode, im.size, ('offset', im.what)))
    stand_in('PIL.ImageChops.lighter', lambda a, b: Shade(a.mode, a.size, ('lighter', a.what, b.what)))
    stand_in('PIL.ImageEnhance.Brightness', Brightness)
    stand_in('PIL.Image.merge', lambda mode, bands: Shade(mode, bands[0].size, ('merge', tuple(b.what for b in bands))))


def inside(what, part):
    return what == part or isinstance(what, tuple) and any(inside(w, part) for w in what)


def case_shadow_draw(fails=(True, False), colour=(None, (1, 2, 3, 4)), there=(True, False)):
    """a shadow is drawn on the shadow, in its colour; afterwards, whatever happened, drawing goes to the layer again, in colours"""
    shades()
    d = DrawingContext(photo('a'), tf('m'))
    if there:
        d.alloc_shadow((7, 8))
    layer, brush, m = d.layer.what, d.draw, Shady(fails)
    if colour:
        got = outcome(d.shadow_draw, m, colour)
    else:
        got = outcome(d.shadow_draw, m)
    same(m.seen, [(True, colour or (140, 140, 170, 255))], 'drawn once, on the shadow, in the colour of shadows')
    if fails:
        same(got, ('raises', 'KeyError'), 'failures are reported')
    check(d.draw is brush, 'drawing goes to the layer again')
    same(d.shadow_color, None, 'in colours')
    if not fails:
        drawn = ('drawn', 'shady', ('blank', 'RGBA', (200, 100), (0, 0, 0, 0)))
        kind, bands = d.shadow.what
        same((d.shadow.mode, d.shadow.size, kind), ('RGBA', (200, 100), 'merge'), 'a picture as large')
        same(bands[:3], tuple(('full of', ('brightest', ('channel', c, drawn))) for c in 'RGB'), 'in one colour')
        check(inside(bands[3], ('channel', 'A', drawn)), 'where something was drawn, and around')
        check(bands[3][0] == 'lighter' and ('channel', 'A', drawn) in bands[3], 'at least as dense as what was drawn')
    same(d.layer.what, layer, 'the layer is not marked')
    same(d.shadow_offset, (7, 8) if there else (4, -3), 'the shadow is where it was asked for')
    Model('x').draw(d)
    check(d.layer.what[:2] == ('drawn', 'x'), 'what is drawn next is on the layer')


def case_crop_between_pixels(corner=((1.7, 1.7), (0.2, 3.5), (4.99, 0.5)), far=((9.2, 9.8), (7.5, 8.01)), turned=(True, False)):
    """pixels are whole: the box starts and ends in the pixels its corners are in"""
    studio()
    d = DrawingContext(photo('a'), Transform())
    box = far + corner if turned else corner + far
    want = (int(corner[0]), int(corner[1]), int(far[0]), int(far[1]))
    same(d.crop_to_pixels(box), want, 'whole pixels')
    same(d.image(crop=box).what[:2], ('crop', want), 'cropped to whole pixels')
    d2 = DrawingContext(photo('a'), Transform(), box)
    same(d2.image().what[:2], ('crop', want), 'also by the context')
    d3 = DrawingContext(photo('a'), Transform((2, 0, 0, 0, 2, 0)))
    same(d3.crop_to_pixels(tuple(b / 2 for b in box)), want, 'through the matrix')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c24': ('context_new', 'context_crop_box', 'shadow_surface'),
}
