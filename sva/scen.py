"""
Client rules.

A rule is a most-general client of the analysed package, written in specs/*.py: a straight description of objects with
arbitrary (symbolic) contents, the operation, and the relation that must hold afterwards.  Rules are *interpreted by the
abstract interpreter together with the repository's current source*; neither the rule nor the repository is executed.
Each `check`/`same`/`disjoint`/`no exception` in a rule is one proof obligation over all values of its inputs.
"""
import ast
import itertools
import os
import random
import signal
import sys
import time
from fractions import Fraction

from . import dd, hp, lin
from . import num as N
from . import models      # noqa: F401  (registers the library models)
from .dd import (TRUE, FALSE, NONE, UNDEF, Const, Ite, AND, OR, NOT, leaves, guard_of, apply)
from .interp import (Interp, State, Exit, Ctx, Frame, Module, Unsupported, AnchorMissing, DeadPath, BUILTINS, METHODS,
                     describe_exc)
from .num import Num, Budget
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, 'specs')
REPO = os.environ.get('SVA_REPO', '/repo')

# ------------------------------------------------------------------ what a client can see of an object
# class -> observers; the first class of the MRO found here is used.  'name()' is a call.
OBS = {
    'Vector': ('x', 'y'),
    'VectorRelative': ('x', 'y'),
    'Point': ('name', 'x', 'y'),
    'PointRelative': ('name', 'dx', 'dy', 'base', 'x', 'y'),
    'PointCalc': ('name', 'base', 'scale', 'x', 'y'),
    'BasePoint': ('name', 'x', 'y'),
    'BBox': ('xl', 'yl', 'xh', 'yh'),
    'Line': ('origin', 'direction'),
    'ControlPoint': ('c', 'dl', 'dr', 'kind'),
    'Transform': ('as_6tuple()', 'stack'),
    'Matrix': ('as_tuple3x3()',),
    'ElemCurve': ('name', 'penbrush', 'closed', 'xform', 'control_points'),
    'ElemRectangleRounded': ('name', 'penbrush', 'closed', 'xform', 'p1', 'p2', 'radius'),
    'ElemP1P2': ('name', 'penbrush', 'closed', 'xform', 'p1', 'p2'),
    'Group': ('name', 'penbrush', 'closed', 'xform', 'hidden', 'elems', 'points'),
    'ElemWithHoles': ('name', 'penbrush', 'closed', 'xform', 'outside', 'inside'),
    'Elem': ('name', 'penbrush', 'closed', 'xform'),
    'Path': ('penbrush', 'closed', 'points'),
    'ControlPath': ('points',),
    'Brush': ('color',),
    'Pen': ('brush', 'width'),
    'PenBrush': ('pen', 'brush'),
    'Colors': ('outline', 'fill'),
    'ColorsByShape': ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear'),
    'PensByShape': ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear'),
    'GroupBuilder': ('name', 'pens_by_shape', 'default_shape_kind', 'the_group'),
    'DumpContext': ('depth', 'lines', 'vars', 'use_vars', 'imports'),
    'Mesh': ('bbox', 'steps', 'coord_x', 'coord_y', 'x_grid', 'y_grid', 'x_shape'),
    'VectorField': ('mesh', 'vx', 'vy'),
    'DrawingContext': ('matrix', 'points_per_curve', 'prod', 'color', 'debug', 'showall', 'show_cps', 'shadow_color', 'crop', 'draw'),
    'AnimationGeneric': ('orig', 'point', 'func'),
    'AnimationLinearFunc': ('orig', 'point', 'target', 'func'),
    'AnimationLinear': ('orig', 'point', 'target'),
    'AnimationSinusoidal': ('orig', 'point', 'target', 'frequency', 'offset'),
    'AnimationCircular': ('orig', 'point', 'radius', 'frequency', 'offset'),
    'AnimationHolder': ('animations',),
    'SimpleAnimation': ('image_size', 'model_bbox', 'steps', 'background', 't_low', 't_high', 'frame_display_time', 'show_steps', 'images'),
}
# value objects: replaced, never edited in place, anywhere in the package; sharing them is not aliasing
IMMUTABLE = {'PenBrush', 'Pen', 'Brush', 'Colors', 'PensByShape', 'ColorsByShape'}


NEAR = (Fraction(1, 10 ** 7), Fraction(1, 10 ** 6), Fraction(1, 10 ** 8), Fraction(1, 10 ** 5), Fraction(1, 10 ** 10))
FAR = (10 ** 4, 10 ** 7, Fraction(1, 1000), 10 ** 12, Fraction(1, 10 ** 6))     # magnitudes tried for a witness


class Obs(Leaf):
    """What can be seen of one object: class name and observed values"""
    __slots__ = ('cls', 'items', 'oid')

    def __init__(self, cls, items, oid=None):
        self.cls, self.items, self.oid = cls, tuple(items), oid

    def __eq__(self, o):
        return self is o or (isinstance(o, Obs) and self.cls == o.cls and len(self.items) == len(o.items) and
                             all(k == k2 and (a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b))
                                 for (k, a), (k2, b) in zip(self.items, o.items)))

    def __hash__(self):
        return hash(('Obs', self.cls) + tuple((k, v.h if isinstance(v, Ite) else hash(v)) for k, v in self.items))

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join('%s=%s' % kv for kv in self.items))


class SpecInterp(Interp):
    def __init__(self, root=REPO):
        super().__init__(root)
        self.entries = []
        self.obligations = []
        self.tier = 'quick'

    def find_module(self, name):
        if name == 'specs' or name.startswith('specs.'):
            p = os.path.join(HERE, *name.split('.')) + '.py'
            return p if os.path.isfile(p) else None
        return super().find_module(name)

    def is_spec(self, mod):
        return mod is not None and mod.name.startswith('specs.')

    def lookup_name(self, st, fr, name, node):
        if self.is_spec(fr.module) and 'spec.' + name in BUILTINS:
            for names, oid in fr.scopes:
                if (names is None or name in names) and name in st.heap[oid].f:
                    break
            else:
                return Builtin('spec.' + name)
        if self.is_spec(fr.module) and name == 'TIER':
            return lit(self.tier)
        return super().lookup_name(st, fr, name, node)

    def call_func(self, st, f, args, kwargs, node=None, handler=None):
        if self.fr is not None and self.is_spec(self.fr.module) and not self.is_spec(f.info.module):
            e = (f.info.qualname, '%s:%d' % (f.info.module.relpath, f.info.node.lineno))
            if e not in self.entries:
                self.entries.append(e)
        return super().call_func(st, f, args, kwargs, node, handler)

    # ------------------------------------------------------------------ observation
    def observe(self, st, gv, depth=9, seen=()):
        if isinstance(gv, Ite):
            return apply(lambda l: self.observe_leaf(st, l, depth, seen), gv)
        return self.observe_leaf(st, gv, depth, seen)

    def observe_leaf(self, st, l, depth, seen):
        if depth <= 0:
            return Obs('...', ())
        if isinstance(l, Tup):
            return Obs('tuple', [(i, self.observe(st, x, depth - 1, seen)) for i, x in enumerate(l.items)])
        if not isinstance(l, Ref):
            return l
        if l.oid in seen:
            return Obs('cycle', [('depth', N.const(len(seen) - seen.index(l.oid)))])
        seen = seen + (l.oid,)
        r = st.heap.get(l.oid)
        if r is None:
            return Obs('gone', ())
        if r.kind in ('list', 'impath'):
            return apply(lambda t: Obs(r.kind, [(i, self.observe(st, x, depth - 1, seen)) for i, x in enumerate(t.items)], l.oid),
                         r.f['_'])
        if r.kind == 'dict':
            return apply(lambda m: Obs('dict', [(str(k), Obs('kv', [('key', self.observe(st, k, depth - 1, seen)),
                                                                      ('value', self.observe(st, v, depth - 1, seen))]))
                                                  for k, v in m.items], l.oid), r.f['_'])
        if r.kind == 'set':
            return apply(lambda m: Obs('set', [(str(k), k) for k, v in sorted(m.items, key=lambda kv: repr(kv[0]))], l.oid), r.f['_'])
        if r.kind == 'nd':
            c = self.nd_content(st, l)
            return apply(lambda n: Obs('nd%s' % (n.shape,), [(i, x) for i, x in enumerate(n.items)], l.oid), c)
        if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
            return self.observe_inst(st, l, r, depth, seen)
        if r.kind == 'inst':
            return Obs(str(r.cls), [])
        if r.kind == 'obj':
            return Obs('obj', [])
        return Obs(r.kind, [], l.oid)

    def observers(self, ci):
        for c in self.mro(ci):
            if c.name in OBS:
                return OBS[c.name]
        return None

    def observe_inst(self, st, l, r, depth, seen):
        names = self.observers(r.cls)
        if names is None:
            names = [k for k in r.f if not k.startswith('_')]
        items = []
        for n in names:
            items.append((n, self.peek(st, l, n, depth - 1, seen)))
        return Obs(r.cls.name, items, l.oid)

    def peek(self, st, l, name, depth, seen):
        """value of a public observer, evaluated on a throw-away copy of the state"""
        s = State(dict(st.heap), st.pc)
        outer = self.fr.ctx
        self.fr.ctx = c = Ctx()
        abort, self.abort_mode = self.abort_mode, False
        try:
            v = self.getattr(s, l, name[:-2] if name.endswith('()') else name)
            if name.endswith('()'):
                v = self.call(s, v, [], {})
            out = self.observe(s, v, depth, seen)
        except DeadPath:
            out = None
        finally:
            self.fr.ctx = outer
            self.abort_mode = abort
        for e in c.exc:
            if e.pc == FALSE:
                continue
            cls = self.class_of(e.state(), leaves(e.val)[0])
            n = cls.ci.name if isinstance(cls, ClassRef) else str(cls)
            x = Obs('raises ' + n, ())
            out = x if out is None else dd.ite(e.pc, x, out)
        return Obs('unreachable', ()) if out is None else out

    # ------------------------------------------------------------------ comparison of observations
    def obs_eq(self, a, b):
        memo = {}

        def rec(a, b):
            if a is b:
                return TRUE
            key = (dd.nid(a), dd.nid(b)) if isinstance(a, Ite) or isinstance(b, Ite) else None
            if key is not None and key in memo:
                return memo[key]
            r = apply(leaf, a, b)
            if key is not None:
                memo[key] = r
            return r

        def leaf(x, y):
            if x == y:
                return TRUE
            if isinstance(x, Obs) and isinstance(y, Obs):
                if x.cls != y.cls or len(x.items) != len(y.items) or any(k != k2 for (k, _), (k2, _) in zip(x.items, y.items)):
                    if x.cls == y.cls == 'dict' and len(x.items) == len(y.items):
                        pass
                    else:
                        return FALSE
                r = TRUE
                for (k, u), (k2, v) in zip(x.items, y.items):
                    r = AND(r, rec(u, v))
                    if r == FALSE:
                        break
                return r
            if isinstance(x, (Num, Const, Str)) and isinstance(y, (Num, Const, Str)):
                return self.eq_simple(x, y)
            if isinstance(x, (Opq, Ext)) or isinstance(y, (Opq, Ext)):
                k1, k2 = sorted((x, y), key=repr)
                return dd.bvar(('eq', k1, k2))
            if isinstance(x, Func) and isinstance(y, Func) or isinstance(x, (Bound, Partial)) or isinstance(y, (Bound, Partial)):
                k1, k2 = sorted((x, y), key=repr)
                return dd.bvar(('eq', k1, k2))
            return FALSE
        return rec(a, b)

    def first_difference(self, a, b, val, path=''):
        """walk two observations under a valuation; returns (path, x, y, owner oid, field)"""
        a, b = dd.evalv(a, val), dd.evalv(b, val)
        if isinstance(a, Obs) and isinstance(b, Obs):
            if a.cls != b.cls:
                return path, a.cls, b.cls, None, None
            if len(a.items) != len(b.items):
                return path, '%d items' % len(a.items), '%d items' % len(b.items), a.oid, '_'
            for (k, u), (k2, v) in zip(a.items, b.items):
                if k != k2 and a.cls != 'dict':
                    return path, k, k2, a.oid, k
                sub = path + ('[%s]' % k if isinstance(k, int) or a.cls == 'dict' else '' if a.cls == 'kv' else '.%s' % k)
                d = self.first_difference(u, v, val, sub)
                if d:
                    return d if d[3] is not None else d[:3] + (a.oid, k)
            return None
        if isinstance(a, (Num, Const, Str)) and isinstance(b, (Num, Const, Str)):
            if dd.evalv(self.eq_simple(a, b), val) == TRUE:
                return None
            return path, a, b, None, None
        if a == b:
            return None
        return path, a, b, None, None

    # ------------------------------------------------------------------ reachability of mutable state
    def reach(self, st, gv, places=None):
        """oid -> (gated condition, path) of the mutable objects a client can reach through public observers"""
        out = {}
        work = [(gv, TRUE, '', 0)]
        while work:
            v, g, path, depth = work.pop()
            if depth > 10:
                continue
            for l in leaves(v):
                c = AND(g, guard_of(v, l)) if isinstance(v, Ite) else g
                if c == FALSE:
                    continue
                if isinstance(l, Tup):
                    for i, x in enumerate(l.items):
                        work.append((x, c, '%s[%d]' % (path, i), depth + 1))
                    continue
                if not isinstance(l, Ref):
                    continue
                r = st.heap.get(l.oid)
                if r is None or r.kind in ('frame', 'module', 'class', 'gen', 'obj'):
                    continue
                if r.kind == 'inst' and (not isinstance(r.cls, ClassInfo) or any(k.name in IMMUTABLE for k in self.mro(r.cls))):
                    continue
                key = l.oid
                if r.kind == 'nd':
                    key = self.nd_base(st, l)[0].oid
                known = out.get(key)
                if places is not None:
                    places.append((path, key, c))
                    known = None
                if known is not None and (known[0] == TRUE or known[0] is c):
                    continue
                out[key] = (c if known is None else OR(known[0], c), path)
                if r.kind in ('list', 'impath'):
                    for t in leaves(r.f['_']):
                        gt = AND(c, guard_of(r.f['_'], t)) if isinstance(r.f['_'], Ite) else c
                        for i, x in enumerate(t.items):
                            work.append((x, gt, '%s[%d]' % (path, i), depth + 1))
                elif r.kind == 'dict':
                    for t in leaves(r.f['_']):
                        gt = AND(c, guard_of(r.f['_'], t)) if isinstance(r.f['_'], Ite) else c
                        for k, x in t.items:
                            work.append((x, gt, '%s[%s]' % (path, k), depth + 1))
                elif r.kind == 'inst':
                    names = self.observers(r.cls)
                    if names is None:
                        names = [k for k in r.f if not k.startswith('_')]
                    for n in names:
                        if n.endswith('()') or n in ('x', 'y'):
                            continue
                        x = r.f.get(n)
                        if x is None or x is UNDEF:
                            m = self.cls_lookup(st, r.cls, n)
                            if not m:
                                continue
                            x = self.peek_raw(st, l, n)
                            if x is None:
                                continue
                        work.append((x, c, '%s.%s' % (path, n), depth + 1))
        return out

    def peek_raw(self, st, l, name):
        s = State(dict(st.heap), st.pc)
        outer = self.fr.ctx
        self.fr.ctx = Ctx()
        try:
            v = self.getattr(s, l, name)
        except DeadPath:
            return None
        finally:
            self.fr.ctx = outer
        if any(isinstance(x, Ref) and x.oid not in st.heap for x in leaves(v)):
            return None
        return v

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, cond, msg, extra=None, where=None):
        bad = AND(st.pc, NOT(cond))
        self.obligations.append({'msg': msg, 'bad': bad, 'extra': extra, 'where': where or self.where(),
                                 'entries': list(self.entries[-6:])})
        st.pc = AND(st.pc, cond)          # later obligations are judged on the inputs where this one holds
        if st.dead:
            raise DeadPath()


# ---------------------------------------------------------------------- rule builtins
def host(name):
    def deco(f):
        BUILTINS['spec.' + name] = f
        return f
    return deco


def _name(v):
    if not isinstance(v, Str) or v.lit is None:
        raise Unsupported('rule: literal name expected')
    return v.lit


def _numvar(dom):
    def f(I, st, a, kw, node):
        names = _name(a[0]).split()
        vs = [N.var(n, dom) for n in names]
        return vs[0] if len(vs) == 1 else Tup(vs)
    return f


for _h, _d in (('real', 'real'), ('pos', 'pos'), ('nonneg', 'nonneg'), ('nonzero', 'nonzero'), ('unit', 'unit'), ('angle', 'ang'),
               ('integer', 'int'), ('posint', 'posint')):
    BUILTINS['spec.' + _h] = _numvar(_d)


@host('flag')
def h_flag(I, st, a, kw, node):
    return dd.bvar(('flag', _name(a[0])))


@host('word')
def h_word(I, st, a, kw, node):
    return Str((('sym', _name(a[0])),))


@host('opaque')
def h_opaque(I, st, a, kw, node):
    return Opq('client', _name(a[0]))


@host('_ufun')
def h__ufun(I, st, a, kw, node):
    name = a[0].lit

    def one(*xs):
        if not all(isinstance(x, Num) for x in xs):
            I.raise_exc(st, 'TypeError', 'number expected', node)
        return N.generic('u:' + name, list(xs))
    return apply(one, *a[1:]) if len(a) > 1 else N.var('u:' + name)


@host('ufun')
def h_ufun(I, st, a, kw, node):
    """an arbitrary client-supplied numeric function"""
    return Partial(Builtin('spec._ufun'), (lit(_name(a[0])),), ())


@host('assume')
def h_assume(I, st, a, kw, node):
    st.pc = AND(st.pc, I.truth(st, a[0]))
    if st.dead:
        raise DeadPath()
    return NONE


def trace(e):
    """debugging: the interpreted statements and calls an analysis stopped in"""
    tb, last = e.__traceback__, None
    while tb:
        loc = tb.tb_frame.f_locals
        n = loc.get('s') if isinstance(loc.get('s'), ast.AST) else loc.get('n') if isinstance(loc.get('n'), ast.AST) else loc.get('node')
        if isinstance(n, ast.AST) and hasattr(n, 'lineno'):
            t = '%s: %s' % (n.lineno, ast.unparse(n)[:140].split('\n')[0])
            if t != last:
                sys.stderr.write('   %-18s %s\n' % (tb.tb_frame.f_code.co_name, t))
            last = t
        tb = tb.tb_next


@host('give_up')
def h_give_up(I, st, a, kw, node):
    """the rule has no answer here (a stand-in is asked for more than it models)"""
    raise Unsupported('rule: ' + str(a[0]))


@host('stand_in')
def h_stand_in(I, st, a, kw, node):
    """an external callable behaves as the given class or function of the spec"""
    I.stand_ins[_name(a[0])] = a[1]
    return NONE


@host('check')
def h_check(I, st, a, kw, node):
    I.oblige(st, I.truth(st, a[0]), _name(a[1]))
    return NONE


@host('observe')
def h_observe(I, st, a, kw, node):
    return I.observe(st, a[0] if len(a) == 1 else Tup(a))


@host('same')
def h_same(I, st, a, kw, node):
    """same(actual, expected, msg): equal to every public observer"""
    x, y = I.observe(st, a[0]), I.observe(st, a[1])
    I.oblige(st, I.obs_eq(x, y), _name(a[2]), ('same', x, y))
    return NONE


@host('alike')
def h_alike(I, st, a, kw, node):
    """observational equality as a value"""
    return I.obs_eq(I.observe(st, a[0]), I.observe(st, a[1]))


@host('disjoint')
def h_disjoint(I, st, a, kw, node):
    x, y = I.reach(st, a[0]), I.reach(st, a[1])
    ok = TRUE
    shared = []
    for oid, (g, p) in x.items():
        if oid in y:
            both = AND(g, y[oid][0])
            if both != FALSE:
                ok = AND(ok, NOT(both))
                r = st.heap[oid]
                shared.append('%s at %s / %s' % (r.cls.name if isinstance(r.cls, ClassInfo) else r.kind, p or '<itself>', y[oid][1] or '<itself>'))
    I.oblige(st, ok, _name(a[2]), ('shared', shared[:4]))
    return NONE


@host('unshared')
def h_unshared(I, st, a, kw, node):
    """no changeable part of the value is to be found in two places of it"""
    places = []
    I.reach(st, a[0], places)
    ok, shared = TRUE, []
    for i, (p, k, c) in enumerate(places):
        for q, k2, c2 in places[i + 1:]:
            if k == k2 and p != q:
                both = AND(c, c2)
                if both != FALSE:
                    ok = AND(ok, NOT(both))
                    shared.append('%s and %s' % (p or '<itself>', q or '<itself>'))
    I.oblige(st, ok, _name(a[1]), ('shared', shared[:4]))
    return NONE


@host('identical')
def h_identical(I, st, a, kw, node):
    return apply(lambda x, y: TRUE if x == y else FALSE, a[0], a[1])


@host('world')
def h_world(I, st, a, kw, node):
    """module-, class- and default-argument-level mutable state of the package"""
    items = []
    for name, m in sorted(I.modules.items()):
        if not name.startswith('x7.'):
            continue
        f = st.heap[m.oid].f
        for k, v in f.items():
            if k.startswith('_') or isinstance(v, ModRef):
                continue
            if isinstance(v, Ref):
                items.append(('%s.%s' % (name, k), I.observe(st, v, 5)))
            elif isinstance(v, (Num, Const, Str, Tup)):
                items.append(('%s.%s' % (name, k), v))
            if isinstance(v, ClassRef) and v.ci.module is m:
                cf = st.heap[v.ci.oid].f
                for k2, v2 in cf.items():
                    if k2.startswith('_') and k2 != '__init__':
                        continue
                    if isinstance(v2, (Num, Const, Str)):
                        items.append(('%s.%s.%s' % (name, k, k2), v2))
                    elif isinstance(v2, Ref):
                        items.append(('%s.%s.%s' % (name, k, k2), I.observe(st, v2, 5)))
                    f2 = v2.k[1] if isinstance(v2, Wrap) and len(v2.k) > 1 else v2
                    if isinstance(f2, Func):
                        items.extend(_defaults(I, st, '%s.%s.%s' % (name, k, k2), f2))
            if isinstance(v, Func) and v.info.module is m:
                items.extend(_defaults(I, st, '%s.%s' % (name, k), v))
    return Obs('world', items)


def _defaults(I, st, path, f):
    for i, d in enumerate(f.defaults):
        if isinstance(d, Ref):
            yield '%s default %d' % (path, i), I.observe(st, d, 5)
    for k, d in f.kwdefaults:
        if isinstance(d, Ref):
            yield '%s default %s' % (path, k), I.observe(st, d, 5)


@host('events')
def h_events(I, st, a, kw, node):
    """external calls made so far, as a tuple of (name, args)"""
    c = st.heap['EV'].f['_']
    pre = _name(a[0]) if a else None
    return apply(lambda t: Tup([Tup([lit(e.k[0]), Tup(e.k[1])]) for e in t.items if pre is None or pre in e.k[0]]), c)


@host('clear_events')
def h_clear_events(I, st, a, kw, node):
    st.heap['EV'] = st.heap['EV'].put('_', Tup(()))
    return NONE


@host('hide')
def h_hide(I, st, a, kw, node):
    """a fresh throw-away evaluation: value of thunk() on a copy of the state, effects discarded (must be immutable)"""
    s = State(dict(st.heap), st.pc)
    v = I.call(s, a[0], [], {})
    return I.observe(s, v)


@host('each_abort')
def h_each_abort(I, st, a, kw, node):
    """run thunk() with failures injected at every external call and every abandoned yield; after each such exit, and
    after the normal end, run checker(kind) in the state reached"""
    thunk, checker = a[0], a[1]
    s = State(dict(st.heap), st.pc)
    outer = I.fr.ctx
    I.fr.ctx = c = Ctx()
    old, I.abort_mode = I.abort_mode, True
    try:
        try:
            I.call(s, thunk, [], {})
        except DeadPath:
            s.pc = FALSE
    finally:
        I.abort_mode = old
        I.fr.ctx = outer
    n = 0
    for e in c.exc:
        s2 = e.state()
        if s2.dead:
            continue
        n += 1
        w = e.where[0] if e.where else '?'
        kind = 'abandoned' if any('GeneratorExit' in str(I.class_of(s2, l)) for l in leaves(e.val)) else 'failure'
        try:
            I.call(s2, checker, [lit(kind), lit(w)], {})
        except DeadPath:
            pass
    if not s.dead:
        try:
            I.call(s, checker, [lit('normal'), lit('end')], {})
        except DeadPath:
            pass
    return N.const(n)


@host('live')
def h_live(I, st, a, kw, node):
    """guard against vacuity: the condition must be possible, otherwise the rule decides nothing here"""
    c = AND(st.pc, I.truth(st, a[0]))
    if c == FALSE:
        I.vacuous.append(_name(a[1]))
    return NONE


@host('note')
def h_note(I, st, a, kw, node):
    sys.stderr.write('note: %s\n' % ' '.join(str(x) for x in a))
    return NONE


@host('evaluate')
def h_evaluate(I, st, a, kw, node):
    """abstract value of a Python expression given as a string term: the text is parsed with its symbolic pieces kept as
    named placeholders, and interpreted in the namespace of the listed modules"""
    mods = [x for x in I.items(st, a[1])]

    def one(s, t):
        if not isinstance(t, Str):
            raise Unsupported('evaluate: not a string')
        return eval_text(I, s, t, mods)
    return I.split(st, a[0], one)


def eval_text(I, st, t, mods, mode='eval'):
    env = {}
    src = []
    for i, p in enumerate(t.parts):
        if isinstance(p, str):
            src.append(p)
            continue
        n = 'PH_%d' % i
        if p[0] == 'num':
            if p[1] not in ('', 'r', '%r', '%s'):
                # digits are dropped by the format: what is read back is some other number
                env[n] = N.opaque(('read back', p[1], p[2]), 'real')
            else:
                env[n] = p[2]
            # a placeholder directly after a minus sign or a letter would fuse with it; keep it parenthesised
            src.append('(%s)' % n)
        elif p[0] == 'reprstr':
            env[n] = p[1]
            src.append('(%s)' % n)
        elif p[0] == 'sym':
            # a bare symbolic word inside source text: an unquoted string
            env[n] = Str((p,))
            src.append('UNQUOTED_%d' % i)
        else:
            raise Unsupported('evaluate: opaque text %s' % (p[:3],))
    text = ''.join(src)
    try:
        tree = ast.parse(text, mode='eval' if mode == 'eval' else 'exec')
    except SyntaxError as e:
        I.raise_exc(st, 'SyntaxError', 'text does not parse: %s' % text[:120])
    ns = dict(env)
    for m in mods:
        if isinstance(m, ModRef):
            f = st.heap[I.modules[m.k[0]].oid].f
            names = [x.lit for x in I.items(st, f['__all__'])] if '__all__' in f else [k for k in f if not k.startswith('_')]
            for k in names:
                if k in f:
                    ns[k] = f[k]
        else:
            for kv in I.items(st, I.call_method(st, m, 'items', [])):
                k, v = I.items(st, kv)
                ns[_name(k)] = v
    ref = I.alloc(st, 'module', None, ns)
    m = Module('specs.<text>', '<text>', '<text>')
    m.oid = ref.oid
    fr = Frame(None, m, m.oid, (), I.fr.ctx)
    old, on = I.fr, I.cur_node
    I.fr = fr
    try:
        if mode == 'eval':
            return I.ev(tree.body, st, fr)
        I.exec_block(tree.body, st, fr)
        if st.dead:
            raise DeadPath()
        return ref
    finally:
        I.fr, I.cur_node = old, on


@host('execute')
def h_execute(I, st, a, kw, node):
    """interpret a program given as a string term; returns the value bound to the given name"""
    name = _name(a[1])

    def one(s, t):
        ref = eval_text(I, s, t, [], 'exec')
        v = s.heap[ref.oid].f.get(name)
        if v is None:
            I.raise_exc(s, 'NameError', '%s is not defined by the text' % name)
        return v
    return I.split(st, a[0], one)


# ---------------------------------------------------------------------- running rules
class Deadline(Exception):
    pass


def _alarm(signum, frame):
    raise Budget('time limit')


def count_nodes(v):
    return len(dd.atoms(v)) if isinstance(v, Ite) else 0


class Analysis:
    def __init__(self, tier='quick', seed=1, root=None):
        self.tier, self.seed = tier, seed
        self.I = I = SpecInterp(root or REPO)
        I.tier = tier
        self.load_errors = []
        d = os.path.join(I.root, 'x7', 'geom')
        if not os.path.isdir(d):
            raise AnchorMissing('package directory x7/geom')
        self.load('sva.pystd')
        for fn in sorted(os.listdir(d)):
            n = fn[:-3]
            if not fn.endswith('.py') or n in ('__init__', '__version__', 'shell_tools', 'needs_test', 'testing', 'platform'):
                continue
            self.load('x7.geom.' + n)
        self.modules_loaded = sorted(n for n in I.modules if n.startswith('x7.'))

    def load(self, name):
        I, st = self.I, self.I.base
        keep = dict(st.heap)
        I.fr = None
        try:
            return I.load_module(st, name)
        except (Unsupported, Budget, DeadPath, RecursionError) as e:
            self.load_errors.append('%s: %s' % (name, e))
            st.heap, st.pc = keep, TRUE
            I.modules.pop(name, None)
            return None

    def spec_cases(self, spec):
        """[(function name, combination index, {param: leaf}, description)]"""
        I = self.I
        m = self.load('specs.' + spec)
        if m is None:
            raise AnchorMissing('rule file %s does not load: %s' % (spec, self.load_errors[-1]))
        st = I.base
        out = []
        todo = [(k, v) for k, v in st.heap[m.oid].f.items() if k.startswith('case_')]
        guests = st.heap[m.oid].f.get('GUESTS')
        for g, names in [(g.lit, n) for g, n in I.content(st, guests).items] if guests is not None else ():
            # rules of another property that are also instances of this one
            other = self.load('specs.' + g)
            if other is None:
                raise AnchorMissing('rule file %s does not load: %s' % (g, self.load_errors[-1]))
            f = st.heap[other.oid].f
            for n in [x.lit for x in I.items(st, names)]:
                if 'case_' + n not in f:
                    raise AnchorMissing('rule %s has no case %s' % (g, n))
                todo.append(('%s:case_%s' % (g, n), f['case_' + n]))
        for k, v in todo:
            if not isinstance(v, Func):
                continue
            names = [a.arg for a in v.info.args.args]
            choices = []
            for d in v.defaults:
                choices.append(list(I.items(st, d)))
            if len(choices) != len(names):
                raise AnchorMissing('rule %s: every parameter needs a tuple of instances' % k)
            for combo in itertools.product(*choices):
                desc = '%s(%s)' % (k, ', '.join('%s=%s' % (n, x) for n, x in zip(names, combo)))
                out.append((k, combo, desc))
        return m, out

    def run_case(self, m, fname, combo, desc, budget_s):
        """interpret one case; returns plain data"""
        I = self.I
        base = I.base
        st = State(dict(base.heap), TRUE)
        I.obligations, I.entries, I.truncated, I.vacuous = [], [], [], []
        I.funcs_entered, I.writes, I.memo_tables = {}, {}, {}
        I.steps, I.depth, I.stack, I.exc_stack = 0, 0, [], []
        I.abort_mode = False
        I.step_limit = 400000 if self.tier == 'quick' else 4000000
        dd.set_budget(400000 if self.tier == 'quick' else 3000000)
        ctx = Ctx()
        home = I.modules['specs.' + fname.split(':')[0]] if ':' in fname else m
        I.fr = Frame(None, home, home.oid, (), ctx)
        I.cur_node = None
        res = {'case': desc, 'obligations': [], 'undecided': [], 'functions': []}
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, budget_s)
        stopped = None
        try:
            try:
                I.call(st, base.heap[home.oid].f[fname.split(':')[-1]], list(combo), {})
            except DeadPath:
                st.pc = FALSE
            except (Unsupported, Budget) as e:
                w = getattr(e, 'where', None)
                if os.environ.get('SVA_TRACE'):
                    trace(e)
                stopped = '%s: %s (at %s in %s)' % ((type(e).__name__, e) + (I.where() if I.fr else ('?', '?')))
                if w:
                    stopped += ' %s' % (w,)
            except RecursionError:
                stopped = 'recursion limit'
            except AnchorMissing:
                raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        for t in I.truncated:
            res['undecided'].append({'msg': 'loop bound', 'why': str(t)})
        for v in I.vacuous:
            res['undecided'].append({'msg': 'vacuous', 'why': v})
        try:
            signal.setitimer(signal.ITIMER_REAL, budget_s)
            for o in I.obligations:
                res['obligations'].append(self.judge(o))
            if stopped is not None:
                res['undecided'].append({'msg': 'analysis stopped', 'why': stopped})
            # exceptions that leave the rule
            if stopped is None:
                for e in ctx.exc:
                    if e.may or e.pc == FALSE:
                        continue
                    o = {'msg': 'no exception escapes', 'bad': e.pc, 'extra': ('exc', describe_exc(I, e)), 'where': e.where,
                         'entries': list(I.entries[-6:])}
                    res['obligations'].append(self.judge(o))
                if not any('no exception' in o['msg'] for o in res['obligations']):
                    res['obligations'].append({'msg': 'no exception escapes', 'status': 'proved'})
        except (Budget, RecursionError) as e:
            res['undecided'].append({'msg': 'judgement', 'why': str(e)})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        res['functions'] = sorted('%s:%d %s' % (f.module.relpath, f.node.lineno, q) for q, f in I.funcs_entered.items()
                                  if not I.is_spec(f.module))
        res['entries'] = list(I.entries)
        res['steps'] = I.steps
        return res

    # ------------------------------------------------------------------ deciding one obligation
    def judge(self, o):
        bad = o['bad']
        out = {'msg': o['msg'], 'where': '%s %s' % tuple(o['where']) if o['where'] else '', 'status': 'proved'}
        if bad == FALSE:
            return out
        val, tried, why = self.witness(bad, o)
        if val is None and not why and lin.empty(bad, 3.0 if self.tier == 'quick' else 20.0):
            out['how'] = 'polyhedra'
            return out
        if val is None:
            out['status'] = 'undecided'
            out['why'] = 'no counterexample valuation in %d samples of the extracted formula%s' % (tried, '; ' + why if why else '')
            return out
        out['status'] = 'violated'
        out['witness'] = self.show_val(val)
        out['entries'] = o['entries']
        I = self.I
        x = o['extra']
        if x and x[0] == 'same':
            try:
                d = I.first_difference(x[1], x[2], val)
            except hp.Undef:
                d = None
            if d:
                path, a, b, oid, field = d
                out['path'] = path or '<value>'
                out['got'], out['expected'] = self.show(a, val), self.show(b, val)
                w = I.writes.get((oid, field))
                if w:
                    out['last_write'] = '%s:%d %s' % w
        elif x and x[0] == 'shared':
            out['shared'] = x[1]
        elif x and x[0] == 'exc':
            out['exception'] = x[1]
        return out

    def show(self, v, val):
        if isinstance(v, Num):
            try:
                return '%s  [= %s]' % (N.pretty(v), float(val.num(v)))
            except hp.Undef:
                return N.pretty(v)
        return str(v)[:300]

    def show_val(self, val):
        out = {}
        for aid, v in val.vals.items():
            a = N.atom_by_id(aid)
            if a.kind == 'var':
                out[a.name] = str(v) if v.denominator < 10 ** 6 else '%s' % float(v)
        for k, v in val.bools.items():
            if k[0] == 'flag':
                out[k[1]] = v
        out.update(('word ' + k, v) for k, v in val.words.items())
        return out

    def witness(self, bad, o):
        pool = set()
        for a in dd.atoms(bad):
            if a.kind == 'b' and a.arg[0] in ('streq', 'starts'):
                for s in a.arg[1:]:
                    if isinstance(s, Str) and s.lit and not any(c in s.lit for c in '.# ,/'):
                        pool.add(s.lit)
        n0, n1 = (300, 120) if self.tier == 'quick' else (1500, 600)
        why = ''
        tried = 0
        for i in range(n0 + n1):
            rng = random.Random('%s/%s' % (self.seed, i))
            val = hp.HPVal(rng, 0 if i < n0 else 1, pool=sorted(pool))
            tried += 1
            try:
                if dd.evalv(bad, val) == TRUE:
                    if val.trusted:
                        return val, tried, ''
                    why = val.why
            except hp.Undef:
                continue
            except (ZeroDivisionError, OverflowError):
                continue
        # other magnitudes: thresholds in the formula, very large and very small inputs
        marks = self.thresholds(bad)
        stop = time.time() + (0.7 if self.tier == 'quick' else 5.0)
        for i in range(150 if self.tier == 'quick' else 800):
            if time.time() > stop:
                break
            rng = random.Random('%s/far/%s' % (self.seed, i))
            val = hp.HPVal(rng, i % 2, pool=sorted(pool), far=(FAR[i % len(FAR)], marks if i % 3 else ()))
            tried += 1
            try:
                if dd.evalv(bad, val) == TRUE:
                    if val.trusted:
                        return val, tried, ''
                    why = val.why
            except (hp.Undef, ZeroDivisionError, OverflowError):
                continue
        # inputs that are almost equal to one another: what a tolerance would take for the same
        stop = time.time() + (0.7 if self.tier == 'quick' else 5.0)
        for i in range(120 if self.tier == 'quick' else 800):
            if time.time() > stop:
                break
            rng = random.Random('%s/near/%s' % (self.seed, i))
            val = hp.HPVal(rng, 0 if i % 4 else 1, pool=sorted(pool), near=NEAR[i % len(NEAR)])
            tried += 1
            try:
                if dd.evalv(bad, val) == TRUE:
                    if val.trusted:
                        return val, tried, ''
                    why = val.why
            except (hp.Undef, ZeroDivisionError, OverflowError):
                continue
        # walk the diagram towards TRUE, solving the equalities met on the way for one unknown each
        viable = {}

        def can(v):
            if not isinstance(v, dd.Ite):
                return v == TRUE
            r = viable.get(id(v))
            if r is None:
                viable[id(v)] = r = any([can(k) for k in v.kids])
            return r
        can(bad)
        stop = time.time() + (1.0 if self.tier == 'quick' else 10.0)
        for i in range(120 if self.tier == 'quick' else 800):
            if time.time() > stop:
                break
            rng = random.Random('%s/steer/%s' % (self.seed, i))
            val = hp.HPVal(rng, i % 2, pool=sorted(pool))
            tried += 1
            try:
                if (self.steer(bad, val, rng, can) if i % 3 else self.path(bad, val, rng, can)) and dd.evalv(bad, val) == TRUE:
                    if val.trusted:
                        return val, tried, ''
                    why = val.why
            except (hp.Undef, ZeroDivisionError, OverflowError):
                continue
        return None, tried, why

    @staticmethod
    def thresholds(bad):
        """ratios of constant terms to coefficients in the sign tests: where the formula changes its mind"""
        out = set()
        for a in dd.atoms(bad):
            if a.kind != 's' or not isinstance(a.arg, Num):
                continue
            c = a.arg.n.get(())
            if not c:
                continue
            for m, k in a.arg.n.items():
                if m:
                    r = abs(Fraction(c) / k)
                    if r > 3 or r < Fraction(1, 20):
                        out.add(r)
        return sorted(out)[:12] + sorted(out)[-4:]

    def path(self, v, val, rng, can):
        """choose a whole path to TRUE first, then inputs: its equalities, simplest first, before its inequalities"""
        tests = []
        while isinstance(v, dd.Ite):
            kids = [i for i, k in enumerate(v.kids) if can(k)]
            if not kids:
                return False
            i = 1 if v.atom.kind == 's' and 1 in kids and rng.random() < 0.3 else rng.choice(kids)
            if v.atom.kind == 's':
                tests.append((v.atom.arg, i))
            else:
                key = v.atom.arg
                if key not in val.bools and key[0] in ('flag', 'exc-taken', 'excmatch'):
                    val.bools[key] = bool(i)
            v = v.kids[i]
        if v != TRUE:
            return False
        equal = sorted((x for x, i in tests if i == 1), key=lambda x: len(x.n))
        base, pick = dict(val.vals), rng.random()
        other = [(x, i - 1, sorted(a.id for a in N.atoms_of(x) if a.kind == 'var' and a.id not in base)) for x, i in tests if i != 1]
        chosen, best, signs = {}, -1, []
        for _ in range(40):
            val.vals = dict(base)
            val.vals.update(chosen)
            if best >= 0:       # change an input of an inequality that does not hold yet
                bad = [vs for (x, w, vs), ok in zip(other, signs) if not ok and vs]
                if not bad:
                    break
                a = rng.choice(rng.choice(bad))
                val.vals.pop(a, None)
                val.atom(a)
            r, pivots = random.Random(pick), set()
            for x in equal:
                had = set(val.vals)
                self.solve(x, val, r)
                new = [a for a in set(val.vals) - had if N.atom_by_id(a).kind == 'var']
                pivots |= set(new)
            now = [val.sign(x) == w for x, w, vs in other]
            if sum(now) >= best:
                best, signs, kept = sum(now), now, dict(val.vals)
                chosen = {k: y for k, y in kept.items() if k not in pivots and k not in base and N.atom_by_id(k).kind == 'var'}
        val.vals = kept
        return v == TRUE

    def steer(self, v, val, rng, can):
        while isinstance(v, dd.Ite):
            kids = [i for i, k in enumerate(v.kids) if can(k)]
            if not kids:
                return False
            if v.atom.kind != 's':
                key = v.atom.arg
                if key not in val.bools and key[0] in ('flag', 'exc-taken', 'excmatch'):
                    val.bools[key] = bool(rng.choice(kids))
                i = 1 if val.bool(key) else 0
            else:
                x = v.atom.arg
                want = 1 if 1 in kids and rng.random() < 0.6 else rng.choice(kids)
                if want == 1:
                    self.solve(x, val, rng)
                else:
                    if rng.random() < 0.5:
                        self.solve(x, val, rng, (want - 1) * Fraction(rng.randint(1, 40), rng.choice((1, 4, 10))))
                    for _ in range(6):
                        save = dict(val.vals)
                        if val.sign(x) + 1 == want or val.vals == save:
                            break
                        val.vals = save
                i = val.sign(x) + 1
            if i not in kids:
                return False
            v = v.kids[i]
        return v == TRUE

    @staticmethod
    def solve(x, val, rng, target=0):
        """choose one unassigned input that occurs linearly in the numerator of x so that it is the target"""
        inner = set()
        deg = {}
        for m in x.n:
            for a, e in m:
                at = N.atom_by_id(a)
                if at.kind == 'fn':
                    for z in at.args:
                        if isinstance(z, Num):
                            inner.update(y.id for y in N.atoms_of(z))
                deg[a] = max(deg.get(a, 0), e)
        for k, e in x.d:
            for m, c in k:
                inner.update(a for a, _ in m)
        free = sorted(a for a, e in deg.items() if e == 1 and a not in inner and a not in val.vals
                      and N.atom_by_id(a).kind == 'var')
        if not free:
            return
        a = rng.choice(free)
        coef, rest = {}, {}
        for m, c in x.n.items():
            if any(b == a for b, _ in m):
                coef[tuple(t for t in m if t[0] != a)] = c
            else:
                rest[m] = c
        k, r = val.poly(coef.items()), val.poly(rest.items())
        if a in val.vals or k == 0:
            return
        v = (target - r) / k
        d = N.atom_by_id(a).dom
        if (d in ('pos', 'posint', 'big') and v <= 0) or (d in ('nonneg', 'nonnegint') and v < 0) or (d == 'nonzero' and v == 0) \
                or (d in ('posint', 'int', 'nonnegint') and v.denominator != 1) or (d == 'unit' and not 0 <= v <= 1) \
                or d in ('big', 'tiny'):
            return
        val.vals[a] = v
