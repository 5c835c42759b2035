"""C18: an animation at time t shows what t says, whatever was shown before."""
from specs.prelude import *
from x7.geom.anim import *
from x7.geom.anim import Animation, Morph, MorphMultiStep, MorphError, AnimationHolder, AnimationGeneric, AnimationLinear
from x7.geom.anim import AnimationLinearFunc, AnimationSinusoidal, AnimationCircular, Builder
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.drawing import bbox_max
import math


def tau_t(t, f, off):
    return 2 * math.pi * f * t + math.radians(off)


# ---------------------------------------------------------------------- moving points
def movers(kind, p):
    """(animation, function of t giving the expected place relative to the starting coordinates)"""
    x, y = p.xy()
    if kind == 'linear':
        q = pt('q')
        return AnimationLinear(p, q), lambda t: (x + t * (q.x - x), y + t * (q.y - y))
    if kind == 'linear_func':
        q, f, g = pt('q'), real('f'), real('g')
        return AnimationLinearFunc(p, q, lambda t: f * t + g), lambda t: (x + (f * t + g) * (q.x - x), y + (f * t + g) * (q.y - y))
    if kind == 'linear_xy':
        q, f, g = pt('q'), real('f'), real('g')
        return (AnimationLinearFunc(p, q, Animation.xy(lambda t: f * t, lambda t: g * t)),
                lambda t: (x + f * t * (q.x - x), y + g * t * (q.y - y)))
    if kind == 'sinusoidal':
        q, f, o = pt('q'), real('f'), angle('o')

        def want(t):
            w = (1 - math.cos(tau_t(t, f, o))) / 2
            return x + w * (q.x - x), y + w * (q.y - y)
        return AnimationSinusoidal(p, q, f, o), want
    if kind == 'circular':
        r, f = real('r'), real('f')
        return (AnimationCircular(p, r, f),
                lambda t: (x + r * math.sin(tau_t(t, f, 0)), y + r * math.cos(tau_t(t, f, 0))))
    if kind == 'generic':
        f = real('f')
        return AnimationGeneric(p, lambda t, o, q: (o.x + f * t, o.y - f * t)), lambda t: (x + f * t, y - f * t)


MOVERS = ('linear', 'linear_func', 'linear_xy', 'sinusoidal', 'circular', 'generic')


def case_place(kind=MOVERS):
    p = named_pt('p')
    name = p.name
    a, want = movers(kind, p)
    s, t = real('s'), real('t')
    a.update(t)
    same(p.xy(), want(t), 'the place belonging to the time')
    same(p.name, name, 'keeps its name')
    a.update(s)
    same(p.xy(), want(s), 'whatever was shown before')
    a.update(t)
    same(p.xy(), want(t), 'and back again: no drift')


def case_disturbed(kind=MOVERS):
    """the place does not depend on where the point was left, nor on moves by others"""
    p = pt('p')
    a, want = movers(kind, p)
    p.setxy(real('u'), real('v'))
    a.update(real('t'))
    same(p.xy(), want(real('t')), 'the place belonging to the time')


def case_same_time_again(kind=MOVERS, moved=('point', 'back to the start', 'both')):
    """asked for the same time once more, after the point (or the target) was moved by others"""
    p = pt('p')
    a, want = movers(kind, p)
    t = real('t')
    a.update(t)
    if moved == 'back to the start':
        p.setxy(*a.orig.xy())
    else:
        p.setxy(real('u'), real('v'))
    if moved == 'both' and hasattr(a, 'target'):
        a.target.setxy(real('tx'), real('ty'))
    a.update(t)
    same(p.xy(), want(t), 'the place belonging to the time')
    a.update(t)
    same(p.xy(), want(t), 'and again')


def case_target_moves(kind=('linear', 'linear_func', 'linear_xy', 'sinusoidal')):
    """a target that moves itself is aimed at where it is now, before and after the first update"""
    p = pt('p')
    a, want = movers(kind, p)
    a.target.setxy(real('tx'), real('ty'))
    a.update(real('t'))
    same(p.xy(), want(real('t')), 'towards where the target is now')
    a.target.setxy(real('ux'), real('uy'))
    a.update(real('s'))
    same(p.xy(), want(real('s')), 'towards where the target is now')
    check(a.target is not p, 'two points')


def case_target_unchanged(kind=('linear', 'linear_func', 'sinusoidal')):
    p, q = pt('p'), point_of('Point', 'q2')
    before = q.xy()
    if kind == 'sinusoidal':
        a = AnimationSinusoidal(p, q)
    elif kind == 'linear':
        a = AnimationLinear(p, q)
    else:
        a = AnimationLinearFunc(p, q, lambda t: t * t)
    a.update(real('t'))
    same(q.xy(), before, 'the target stays')
    same(a.orig.xy(), pt('p').xy(), 'the remembered start stays')
    a.update(0)
    same(p.xy(), pt('p').xy(), 'starts at the original place')
    if kind != 'sinusoidal':
        a.update(1)
        same(p.xy(), q.xy(), 'ends at the target')
    else:
        a.update(0.5)
        same(p.xy(), q.xy(), 'at the target half way')
        a.update(1)
        same(p.xy(), pt('p').xy(), 'ends where it started')


def case_target_follows(kind=('PointRelative', 'PointCalc'), mover=('linear', 'linear_func', 'sinusoidal')):
    """a computed target is aimed at where it is now"""
    base = pt('b')
    rel = PointRelative(real('dx'), real('dy'), base)
    q = rel if kind == 'PointRelative' else PointCalc(rel, real('s'))
    p = pt('p')
    if mover == 'linear':
        a = AnimationLinear(p, q)
    elif mover == 'linear_func':
        a = AnimationLinearFunc(p, q, lambda t: t)
    else:
        a = AnimationSinusoidal(p, q, 0.5)
    base.setxy(real('nx'), real('ny'))
    a.update(1)
    same(p.xy(), q.xy(), 'ends at the target, where it is now')
    base.setxy(real('mx'), real('my'))
    a.update(1)
    same(p.xy(), q.xy(), 'and again')


def case_refused(cls=('generic', 'linear', 'sinusoidal', 'circular'), bad=('PointRelative', 'PointCalc')):
    p = point_of(bad, 'p')
    if cls == 'generic':
        check(raises(ValueError, AnimationGeneric, p, lambda t, o, q: (0, 0)), 'computed points cannot be animated')
    elif cls == 'linear':
        check(raises(ValueError, AnimationLinear, p, pt('q')), 'computed points cannot be animated')
    elif cls == 'sinusoidal':
        check(raises(ValueError, AnimationSinusoidal, p, pt('q')), 'computed points cannot be animated')
    else:
        check(raises(ValueError, AnimationCircular, p, 1, 1), 'computed points cannot be animated')


def case_circular_radius():
    p, r = pt('p'), real('r')
    a = AnimationCircular(p, r, real('f'), real('o'))
    x, y = p.xy()
    a.update(real('t'))
    same((p.x - x) ** 2 + (p.y - y) ** 2, r * r, 'stays at the radius')
    b = AnimationCircular(pt('p2'), r, 1)
    b.update(real('t'))
    q = b.point.xy()
    b.update(real('t') + 1)
    same(b.point.xy(), q, 'once around per unit of time')


def case_holder(n=(0, 1, 2, 3, 9)):
    """a holder updates all of its animations, in the order they were added"""
    h = AnimationHolder()
    log = []

    class Logger(Animation):
        def __init__(self, k):
            super().__init__(pt('l'))
            self.k = k

        def update(self, t):
            log.append((self.k, t))
    for i in range(n):
        h.add(Logger(i))
    t = real('t')
    h.update(t)
    same(log, [(i, t) for i in range(n)], 'each once, in order, with the time')
    check(AnimationHolder().animations == [], 'a new holder is empty')


def case_holder_chain(n=(2, 3, 5), shared=(True, False)):
    """animations of one point take effect one after the other, each starting from where the last one left it"""
    h = AnimationHolder()
    p = pt('p')
    log = []

    class Doubler(Animation):
        def __init__(self, point, k):
            super().__init__(point)
            self.k = k

        def update(self, t):
            x, y = self.point.xy()
            log.append(self.k)
            self.point.set(Point(2 * x + self.k, y + t))
    others = [p if shared else Point(i, i) for i in range(n)]
    for i in range(n):
        h.add(Doubler(others[i], i + 1))
    t = real('t')
    h.update(t)
    same(log, list(range(1, n + 1)), 'each one')
    x, y = (real('p.x'), real('p.y')) if shared else (0, 0)
    for i in range(n if shared else 1):
        x, y = 2 * x + i + 1, y + t
    same(others[0].xy(), (x, y), 'one after the other')


def case_holder_same_time(kind=MOVERS, moved=('elsewhere', 'back to the start', 'not')):
    """a holder asked for the same time once more, after the point was moved by others"""
    p = pt('p')
    a, want = movers(kind, p)
    h = AnimationHolder()
    h.add(a)
    t = real('t')
    h.update(t)
    if moved == 'elsewhere':
        p.setxy(real('u'), real('v'))
    elif moved == 'back to the start':
        p.setxy(*a.orig.xy())
    h.update(t)
    same(p.xy(), want(t), 'the place belonging to the time')
    q = pt('q2')
    b, want_b = movers(kind, q)
    h.add(b)
    h.update(t)
    same(q.xy(), want_b(t), 'an animation added later takes part at the same time')


def case_holder_same_animation(n=(1, 2, 3)):
    """an animation added several times takes effect several times"""
    h = AnimationHolder()
    p = pt('p')
    a = AnimationGeneric(p, lambda t, orig, q: (q.x + t, q.y))
    for i in range(n):
        h.add(a)
    h.update(real('t'))
    same(p.xy(), (real('p.x') + n * real('t'), real('p.y')), 'each time')


def case_holder_two_moves():
    """with two animations on one point the later one decides"""
    p = pt('p')
    h = AnimationHolder()
    h.add(AnimationLinear(p, pt('q')))
    h.add(AnimationCircular(p, real('r'), 1))
    t = real('t')
    h.update(t)
    same(p.xy(), (real('p.x') + real('r') * math.sin(2 * math.pi * t), real('p.y') + real('r') * math.cos(2 * math.pi * t)), 'the later one')


# ---------------------------------------------------------------------- functions of time
def case_identity():
    t, u = real('t'), real('u')
    same(Animation.identity()(t), t, 'identity')
    same(Animation.identity()((t, u)), (t, u), 'identity')
    same(Animation.identity_xy()(t), (t, t), 'identity for x and y')
    same(Animation.identity_xy()((t, u)), (t, u), 'identity for x and y')


def case_xy():
    t, a, b = real('t'), real('a'), real('b')
    f = Animation.xy(lambda t: a * t, lambda t: b - t)
    same(f(t), (a * t, b - t), 'x by the first, y by the second')
    same(Animation.xy()(t), (t, t), 'unchanged by default')
    same(Animation.xy(y_func=lambda t: 3 * t)(t), (t, 3 * t), 'each on its own')


def case_periodic(which=('sin', 'cos', 'periodic', 'sin_cos')):
    t, f, o, s, h = real('t'), real('f'), real('o'), real('s'), real('h')
    w = 2 * math.pi * f * t + math.radians(o)
    S, C = math.sin(w) * s + h, math.cos(w) * s + h
    if which == 'sin':
        same(Animation.sin(f, o, s, h)(t), S, 'sine')
        same(Animation.sin()(t), math.sin(2 * math.pi * t), 'sine by default')
        same(Animation.sin(scale=s, shift=h, offset=o, frequency=f)(t), S, 'sine')
    elif which == 'cos':
        same(Animation.cos(f, o, s, h)(t), C, 'cosine')
        same(Animation.cos()(t), math.cos(2 * math.pi * t), 'cosine by default')
    elif which == 'periodic':
        same(Animation.periodic(math.sin, f, o, s, h)(t), S, 'any periodic function')
        same(Animation.periodic(math.cos)(t), math.cos(2 * math.pi * t), 'by default')
    else:
        same(Animation.sin_cos(f, o, s, h)(t), (S, C), 'sine and cosine')
        same(Animation.sin_cos()(t), (math.sin(2 * math.pi * t), math.cos(2 * math.pi * t)), 'by default')


FUNCTIONS = {
    'sin': lambda f, o, s, h: Animation.sin(f, o, s, h),
    'cos': lambda f, o, s, h: Animation.cos(f, o, s, h),
    'sin_cos': lambda f, o, s, h: Animation.sin_cos(f, o, s, h),
    'periodic': lambda f, o, s, h: Animation.periodic(lambda t: 2 * t, f, o, s, h),
    'xy': lambda f, o, s, h: Animation.xy(lambda t: f * t, lambda t: o + t),
    'hide_if': lambda f, o, s, h: Animation.hide_if(lambda t: f * t + o, s),
    'ramp_up': lambda f, o, s, h: Animation.ramp_up(),
    'ramp_down': lambda f, o, s, h: Animation.ramp_down(0.1, 0.2),
    'interpolate': lambda f, o, s, h: Animation.interpolate([(0, f), (0.5, o), (1, s)]),
    'identity': lambda f, o, s, h: Animation.identity(),
    'identity_xy': lambda f, o, s, h: Animation.identity_xy(),
}


def case_asked_again(which=tuple(FUNCTIONS), time=(0, 0.15, 0.5, 1)):
    """a function of time answers alike whenever it is asked, whatever it was asked before"""
    args = real('f'), real('o'), real('s'), real('h')
    fresh = FUNCTIONS[which](*args)(time)
    func = FUNCTIONS[which](*args)
    for other in (0, 1, 0.5, 0.15, time, time):
        func(other)
    same(func(time), fresh, 'the same answer as at first')
    same(FUNCTIONS[which](*args)(time), fresh, 'and from another function of the kind')


def case_interpolate(t=('below', 'first', 'inner', 'node', 'last', 'above')):
    v = [real('v0'), real('v1'), real('v2'), real('v3')]
    f = Animation.interpolate([(0, v[0]), (0.25, v[1]), (0.5, v[2]), (1, v[3])])
    u = unit('u')
    if t == 'below':
        same(f(-pos('d')), v[0], 'constant before')
    elif t == 'above':
        same(f(1 + pos('d')), v[3], 'constant after')
    elif t == 'node':
        same((f(0), f(0.25), f(0.5), f(1)), tuple(v), 'through its nodes')
    elif t == 'first':
        same(f(0.25 * u), v[0] + u * (v[1] - v[0]), 'straight in between')
    elif t == 'inner':
        same(f(0.25 + 0.25 * u), v[1] + u * (v[2] - v[1]), 'straight in between')
    else:
        same(f(0.5 + 0.5 * u), v[2] + u * (v[3] - v[2]), 'straight in between')


def case_interpolate_pair():
    f = Animation.interpolate([(0, real('a')), (1, real('b'))])
    s, t = real('s'), real('t')
    same(f((s, t)), (f(s), f(t)), 'each coordinate on its own')


def case_ramp(ends=((0.25, 0.75), (0.1, 0.9), (0.5, 0.6))):
    lo, hi = ends
    up, down = Animation.ramp_up(lo, hi), Animation.ramp_down(lo, hi)
    t, u = real('t'), unit('u')
    same(up(t) + down(t), 1, 'one goes up as the other goes down')
    same(up(lo - nonneg('d')), 0, 'flat before')
    same(up(hi + nonneg('d')), 1, 'flat after')
    same(up(lo + u * (hi - lo)), u, 'straight in between')
    check(0 <= up(t), 'never below')
    check(up(t) <= 1, 'never above')
    if ends == (0.25, 0.75):
        same((Animation.ramp_up()(t), Animation.ramp_down()(t)), (up(t), down(t)), 'the default ramp')


def case_ramp_jump(at=(0, 0.25, 0.5, 1)):
    """a ramp that starts where it ends is a jump"""
    up, down = Animation.ramp_up(at, at), Animation.ramp_down(at, at)
    d = pos('d')
    same((up(at - d), down(at - d)), (0, 1), 'flat before')
    same((up(at + d), down(at + d)), (1, 0), 'flat after')


def case_hide_if(how=('default', 'given')):
    v, th = real('v'), real('th')
    f = Animation.hide_if(lambda t: v + t) if how == 'default' else Animation.hide_if(lambda t: v + t, th)
    limit = 0 if how == 'default' else th
    t = real('t')
    r = f(t)
    if v + t < limit:
        check(r is None, 'hidden below the threshold')
    else:
        same(r, v + t, 'the value itself otherwise')


# ---------------------------------------------------------------------- morphs
def plain_curve(k, n=2, closed=True):
    return ElemCurve(k, PenBrush('red', 'blue') if closed else PenBrush('red'), [cp('%s.cp%d' % (k, i), 'smooth') for i in range(n)], closed)


def model_with(*elems):
    return Group('model', PenBrush('red'), elems=list(elems))


def mix(a, b, t):
    return a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)


def shows(morph, src, tgt, t, msg):
    same(len(morph.morph.control_points), len(src), msg + ': as many control points')
    for m, s, g in zip(morph.morph.control_points, src, tgt):
        same(m.c.xy(), mix(s.c, g.c, t), msg + ': centre')
        same(m.dl.xy(), mix(s.dl, g.dl, t), msg + ': left handle')
        same(m.dr.xy(), mix(s.dr, g.dr, t), msg + ': right handle')


def case_morph(n=(1, 2, 3, 9), closed=(True, False)):
    a, b = plain_curve('a', n, closed), plain_curve('b', n, closed)
    src, tgt = [c.copy() for c in a.control_points], [c.copy() for c in b.control_points]
    model = model_with(a)
    f = real('f')
    m = Morph(model, a, b, lambda t: f * t, False)
    shows(m, src, tgt, 0, 'at first')
    s, t = real('s'), real('t')
    m.update(t)
    shows(m, src, tgt, f * t, 'in between')
    m.update(s)
    shows(m, src, tgt, f * s, 'whatever was shown before')
    m.update(0)
    shows(m, src, tgt, 0, 'the source at 0')
    check(a.control_points == src, 'the source is not changed')
    check(b.control_points == tgt, 'the target is not changed')
    same(m.morph.closed, closed, 'open or closed')


def case_morph_again(which=('morph', 'multi'), what=('morph', 'target', 'source')):
    """the same time once more, after the morphing shape, its source or its target was changed"""
    a, b = plain_curve('a'), plain_curve('b')
    if which == 'morph':
        m = Morph(model_with(a), a, b, Animation.identity())
        src, tgt = a.control_points, b.control_points
    else:
        m = MorphMultiStep(model_with(a), a, [(1.0, b)], Animation.identity(), False)
        src, tgt = m.all_curves[0].control_points, b.control_points
    t = unit('t')
    assume(t < 1)
    m.update(t)
    shows(m, src, tgt, t, 'at first')
    c = {'morph': m.morph.control_points, 'target': tgt, 'source': src}[what][1]
    c.c.setxy(real('nx'), real('ny'))
    c.dl.setxy(real('lx'), real('ly'))
    c.dr.setxy(real('rx'), real('ry'))
    m.update(t)
    shows(m, src, tgt, t, 'once more')


def case_multi_jump(at=(0.5, 1.0)):
    """two targets of the same time: before it the first is aimed at, from it on the second is shown"""
    a, b, c, d = plain_curve('a'), plain_curve('b'), plain_curve('c'), plain_curve('d')
    src = [[q.copy() for q in e.control_points] for e in (a, b, c, d)]
    m = MorphMultiStep(model_with(a), a, [(at, b), (at, c), (2.0, d)], Animation.identity(), False)
    u = unit('u')
    assume(u < 1)
    m.update(at * u)
    shows(m, src[0], src[1], u, 'up to the jump')
    m.update(at)
    shows(m, src[2], src[2], 0, 'at the jump')
    m.update(at + (2 - at) * u)
    shows(m, src[2], src[3], u, 'after the jump')


def case_multi_other_times(neg=(True, False)):
    """times of targets need not lie between 0 and 1"""
    a, b, c = plain_curve('a'), plain_curve('b'), plain_curve('c')
    src = [[q.copy() for q in e.control_points] for e in (a, b, c)]
    m = MorphMultiStep(model_with(a), a, [(3.0, b), (7.0, c)], Animation.identity(), False)
    u = unit('u')
    assume(u < 1)
    m.update(3 * u)
    shows(m, src[0], src[1], u, 'from the source to the first target')
    m.update(3 + 4 * u)
    shows(m, src[1], src[2], u, 'from target to target')
    m.update(-pos('d') if neg else 7 + pos('d'))
    shows(m, src[0] if neg else src[2], src[0] if neg else src[2], 0, 'outside of all times')


def case_morph_end():
    a, b = plain_curve('a'), plain_curve('b')
    m = Morph(model_with(a), a, b, Animation.identity())
    m.update(1)
    shows(m, b.control_points, b.control_points, 0, 'the target at 1')


def case_morph_model(place=(0, 1, 2)):
    """the morph stands in for the source in the model, in its place, until restored"""
    others = [ElemRectangle('r1', PenBrush('red'), pt('r1'), pt('r2')), ElemEllipse('e1', PenBrush('red'), pt('e1'), pt('e2'))]
    a, b = plain_curve('a'), plain_curve('b')
    lst = others[:place] + [a] + others[place:]
    model = model_with(*lst)
    names = list(model.elems)
    m = Morph(model, a, b, Animation.identity())
    same(list(model.elems), names, 'members keep their names and order')
    check(model.elems['a'] is m.morph, 'the morph is in the model')
    for e in others:
        check(model.elems[e.name] is e, 'other members stay')
    m.update(real('t'))
    m.restore()
    check(model.elems['a'] is a, 'the source is back')
    same(list(model.elems), names, 'members keep their names and order')


def case_morph_nested():
    a, b = plain_curve('a'), plain_curve('b')
    inner = Group('inner', PenBrush('red'), elems=[a])
    model = model_with(inner)
    m = Morph(model, a, b, Animation.identity())
    check(inner.elems['a'] is m.morph, 'found inside a group')
    m.restore()
    check(inner.elems['a'] is a, 'the source is back')


def case_morph_refused():
    a, b = plain_curve('a', 2), plain_curve('b', 3)
    model = model_with(a)
    check(raises(MorphError, Morph, model, a, b, Animation.identity(), False), 'different sizes are refused without force')
    check(model.elems['a'] is a, 'the model is as it was')
    same((len(a.control_points), len(b.control_points)), (2, 3), 'the curves are as they were')
    check(raises(MorphError, Morph, model_with(), a, plain_curve('b', 2), Animation.identity()), 'a source outside of the model is refused')


def fixed_curve(k, n):
    pts = [(0, 0), (9, 1), (8, 12), (-3, 7)]
    return ElemCurve(k, PenBrush('red', 'blue'), [ControlPoint(Point(*pts[i]), vec('%s%d.l' % (k, i)), vec('%s%d.r' % (k, i)), 'smooth') for i in range(n)])


def case_morph_force(n=(1, 2, 3), m=(1, 2, 3)):
    """with force the shorter curve gets more control points, and both still trace themselves"""
    a, b = fixed_curve('a', n), fixed_curve('b', m)
    mo = Morph(model_with(a), a, b, Animation.identity())
    k = max(n, m)
    same((len(a.control_points), len(b.control_points), len(mo.morph.control_points)), (k, k, k), 'as many control points')
    mo.update(1)
    shows(mo, b.control_points, b.control_points, 0, 'the target at 1')
    mo.update(0)
    shows(mo, a.control_points, a.control_points, 0, 'the source at 0')


def case_morph_hidden():
    """a time function giving None hides the shape, and it comes back"""
    a, b = plain_curve('a'), plain_curve('b')
    src, tgt = [c.copy() for c in a.control_points], [c.copy() for c in b.control_points]
    m = Morph(model_with(a), a, b, Animation.hide_if(lambda t: t))
    m.update(-pos('d'))
    for c in m.morph.control_points:
        check(c.c.x >= 100000 and c.c.y >= 100000, 'far away')
        same((c.dl.xy(), c.dr.xy()), ((0, 0), (0, 0)), 'with no extent')
    t = nonneg('t')
    m.update(t)
    shows(m, src, tgt, t, 'and back')
    check(a.control_points == src and b.control_points == tgt, 'source and target are not changed')


def case_multi(where=('below', 'first', 'inner', 'last', 'node', 'above', 'hidden')):
    a, b, c = plain_curve('a'), plain_curve('b'), plain_curve('c')
    src = [[q.copy() for q in e.control_points] for e in (a, b, c)]
    hide = [False]
    m = MorphMultiStep(model_with(a), a, [(0.25, b), (1.0, c)], lambda t: None if hide[0] else t, False)
    u = unit('u')
    assume(u < 1)
    m.update(real('before'))
    if where == 'hidden':
        hide[0] = True
        m.update(real('t'))
        for q in m.morph.control_points:
            check(q.c.x >= 100000 and q.c.y >= 100000, 'far away')
            check(q.l.x >= 100000 and q.r.y >= 100000 and q.l.y >= 100000 and q.r.x >= 100000, 'with its handles')
        hide[0] = False
        m.update(0.25 * u)
        shows(m, src[0], src[1], u, 'and back')
    elif where == 'below':
        m.update(-pos('d'))
        shows(m, src[0], src[0], 0, 'the source before its time')
    elif where == 'first':
        m.update(0.25 * u)
        shows(m, src[0], src[1], u, 'from the source to the first target')
    elif where == 'inner':
        m.update(0.25 + 0.75 * u)
        shows(m, src[1], src[2], u, 'from target to target')
    elif where == 'node':
        m.update(0.25)
        shows(m, src[1], src[1], 0, 'a target at its time')
    elif where == 'last':
        m.update(1)
        shows(m, src[2], src[2], 0, 'the last target at its time')
    else:
        m.update(1 + pos('d'))
        shows(m, src[2], src[2], 0, 'the last target after its time')
    for e, s in zip((a, b, c), src):
        check(e.control_points == s, 'source and targets are not changed')


def ring(k, first, n=3):
    """a curve around (x, y) whose corner nearest to the low corner is the one numbered first"""
    x, y = real(k + '.x'), real(k + '.y')
    away = [Vector(0, 0), Vector(40, 5), Vector(20, 50), Vector(-1, 30)][:n]
    cps = [ControlPoint(Point(x, y) + v, Vector(-1, -1), Vector(1, 1)) for v in away]
    return ElemCurve(k, PenBrush('red'), cps[n - first:] + cps[:n - first], True)


def case_multi_force(first=(0, 1, 2), other=(0, 1, 2)):
    """starting corners are matched up: low corner goes to low corner, whatever the order given"""
    a, b = ring('a', first), ring('b', other)
    src, tgt = ring('a', 0).control_points, ring('b', 0).control_points
    m = MorphMultiStep(model_with(a), a, [(1.0, b)], lambda t: t)
    same(len(m.morph.control_points), 3, 'every point')
    for t in (0, 0.5, 1):
        m.update(t)
        shows(m, src, tgt, t, 'corner by corner')


def case_multi_given(first=(0, 1, 2), force=(True, False), names=(1, 2)):
    """the list of targets stays the caller's: the same list serves for several morphs, the source is handed back as it was"""
    a, e, b, c = ring('a', first), ring('e', first), ring('b', 0), ring('c', 0)
    targets = [(0.25, b), (1.0, c)][-names:]
    given = list(targets)
    before = observe(a)
    model = model_with(a, e)
    m = MorphMultiStep(model, a, targets, lambda t: t, force)
    check(len(targets) == len(given) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(targets, given)), 'the list of targets is left alone')
    k = MorphMultiStep(model, e, targets, lambda t: t, force)
    same(len(k.all_curves), names + 1, 'the source and the targets')
    m.update(1)
    k.update(1)
    shows(m, c.control_points, c.control_points, 0, 'the last target')
    shows(k, c.control_points, c.control_points, 0, 'the last target')
    m.restore()
    check(model.elems['a'] is a, 'the source is back')
    same(observe(a), before, 'as it was')


def case_multi_sizes(n=(1, 2, 3), k=(1, 2, 3), force=(True, False)):
    """curves with few points get more, without changing how they look"""
    a, b = fixed_curve('a', n), fixed_curve('b', k)
    m = MorphMultiStep(model_with(a), a, [(1.0, b)], lambda t: t, force)
    same(len(m.morph.control_points), max(n, k), 'as many points as the largest')
    before = [q.copy() for q in m.morph.control_points]
    m.update(0)
    same(m.morph.control_points, before, 'starting as the source')


def case_multi_model(place=(0, 1)):
    a, b = plain_curve('a'), plain_curve('b')
    r = ElemRectangle('r1', PenBrush('red'), pt('r1'), pt('r2'))
    model = model_with(*([r, a] if place else [a, r]))
    names = list(model.elems)
    m = MorphMultiStep(model, a, [(1.0, b)], Animation.identity(), False)
    check(model.elems['a'] is m.morph, 'the morph is in the model')
    same(list(model.elems), names, 'members keep their names and order')
    m.update(real('t'))
    m.restore()
    check(model.elems['a'] is a, 'the source is back')
    same(list(model.elems), names, 'members keep their names and order')
    check(raises(MorphError, MorphMultiStep, model_with(), plain_curve('z'), [(1.0, b)], Animation.identity(), False), 'a source outside of the model is refused')


# ---------------------------------------------------------------------- frames
class Recorder(Group):
    """a model that notes when it is drawn"""
    def __init__(self, log):
        super().__init__('rec', PenBrush('red'))
        self.log = log

    def draw(self, dc):
        self.log.append(('draw', dc))


class Plate(object):
    mode, size = 'RGBA', (20, 10)


def case_build_all(steps=(1, 2, 5, 24)):
    log = []

    class Ticker(Animation):
        def update(self, t):
            log.append(('t', t))
    h = AnimationHolder()
    h.add(Ticker(pt('p')))
    m = tf('m')
    b = Builder(opaque('image') if steps < 6 else Plate(), m, Recorder(log), h)
    six = m.as_6tuple()
    out = b.build_all(steps)
    same(len(out), steps, 'as many frames as steps')
    same(len(log), 2 * steps, 'updated once and drawn once each')
    for i in range(steps):
        same(log[2 * i], ('t', i / steps), 'the time of the frame, before it is drawn')
        same(log[2 * i + 1][0], 'draw', 'then it is drawn')
        same(log[2 * i + 1][1].matrix.as_6tuple(), six, 'with the given matrix')
    check(b.images is out, 'frames are kept')
    again = b.build_all(steps)
    same(len(b.images), steps, 'building again starts over')


def case_builder_draft(draft=(True, False)):
    log = []
    b = Builder(opaque('image'), tf('m'), Recorder(log), draft=draft)
    b.build_one(real('t'))
    same(log[0][1].prod, not draft, 'draft or production')
    check(b.animations.animations == [], 'no animations unless given')


def case_simple(steps=(1, 2, 5)):
    lo, hi = real('lo'), real('hi')
    assume(lo != hi)
    seen = []
    sa = SimpleAnimation(lambda dc, t: seen.append((dc, t)), image_size=(200, 100), draw_bbox=(-10, -10, 10, 10),
                         steps=steps, t_low=lo, t_high=hi)
    sa.animate()
    same(len(sa.images), steps + 1, 'a frame for each time, both ends included')
    same([t for _, t in seen], [lo + (hi - lo) * i / steps for i in range(steps + 1)], 'evenly spaced times, in order')
    for dc, _ in seen:
        same([dc.scale_pt(-10, -10), dc.scale_pt(10, 10)], [(0, 100), (200, 0)], 'the drawing space fills the image')
    for i in range(steps):
        check(seen[i][0] is not seen[i + 1][0], 'a new drawing for each frame')
        check(unshared_matrix(seen[i][0], seen[i + 1][0]), 'with a matrix of its own')


def case_simple_again(steps=(1,)):
    """animating again shows every time again, after the frames there are"""
    seen = []
    sa = SimpleAnimation(lambda dc, t: seen.append(t), image_size=(20, 10), draw_bbox=(-1, -1, 1, 1), steps=steps)
    with sa.next_step():
        pass
    sa.animate()
    same(seen, [i / steps for i in range(steps + 1)], 'all times, whatever frames there are already')
    same(len(sa.images), steps + 2, 'added to the frames there are')
    sa.animate()
    same(seen, [i / steps for i in range(steps + 1)] * 2, 'all times once more')


def unshared_matrix(a, b):
    return a.matrix is not b.matrix


def case_bbox_max():
    a, b, c = [tuple(real(k + i) for i in 'xyuv') for k in 'abc']
    r = bbox_max(a, b)
    for i in (0, 1):
        check(r[i] <= a[i] and r[i] <= b[i], 'low corner covers')
    for i in (2, 3):
        check(r[i] >= a[i] and r[i] >= b[i], 'high corner covers')
    for i in range(4):
        check(r[i] == a[i] or r[i] == b[i], 'and is no larger')
    same(r, bbox_max(b, a), 'either order')
    same(bbox_max(a, a), a, 'a box with itself')
    same(bbox_max(bbox_max(a, b), c), bbox_max(a, bbox_max(b, c)), 'any grouping')


def case_interpolate_jump(at=(0.5, 0.25)):
    """two values at one time: a jump, straight before and after it"""
    v = [real('v%d' % i) for i in range(5)]
    f = Animation.interpolate([(0, v[0]), (at, v[1]), (at, v[2]), (1, v[3])])
    for u in (0, 0.25, 0.5, 0.875):
        same(f(at * u), v[0] + u * (v[1] - v[0]), 'straight before the jump')
    for u in (0.125, 0.5, 1):
        same(f(at + (1 - at) * u), v[2] + u * (v[3] - v[2]), 'straight after the jump')
    same(f((at / 2, 1)), (f(at / 2), f(1)), 'each coordinate on its own')
    g = Animation.interpolate([(0, v[0]), (0, v[1]), (0.5, v[2]), (1, v[3]), (1, v[4])])
    same(g(0.25), (v[1] + v[2]) / 2, 'a jump at the start')
    same(g(0.75), (v[2] + v[3]) / 2, 'a jump at the end')
    same((g(-1), g(2)), (v[0], v[4]), 'outside of it all')


def case_interpolate_flat():
    """equal values, a single value, many values"""
    v = [real('v%d' % i) for i in range(3)]
    same((Animation.interpolate([(0.5, v[0])])(0.2), Animation.interpolate([(0.5, v[0])])(0.9)), (v[0], v[0]), 'one value at all times')
    f = Animation.interpolate([(0, v[0]), (0.25, v[1]), (0.5, v[1]), (0.75, v[1]), (1, v[2])])
    same((f(0.3), f(0.5), f(0.6)), (v[1], v[1], v[1]), 'a value that stays')
    same((f(0.125), f(0.875)), ((v[0] + v[1]) / 2, (v[1] + v[2]) / 2), 'before and after it')


# rules stated under another property whose instances are instances of this one too
GUESTS = {
    'c22': ('animate', 'morph', 'morph_multi'),
}
