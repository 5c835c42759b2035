"""Models of the Python builtins, numpy, math, itertools and x7.lib operations used by the analysed code."""
import ast
import builtins as pybuiltins
import functools
import itertools
from fractions import Fraction

from . import interp as IT
from . import num as N
from . import dd
from .dd import (TRUE, FALSE, NONE, NOTIMPL, UNDEF, Const, Ite, AND, OR, NOT, ite, restrict, leaves, guard_of, apply)
from .num import Num
from .values import *
from .interp import BUILTINS, METHODS, EXT, EXT_CONSTS, Unsupported, DeadPath, Interp, Exit, Ctx, State

EXT_CONSTS.update({
    'math.pi': N.PI, 'math.tau': N.mul(N.const(2), N.PI), 'numpy.pi': N.PI,
    'math.inf': N.opaque(('float', 'inf')), 'numpy.inf': N.opaque(('float', 'inf')),
    'numpy.newaxis': NONE, 'sys.platform': lit('linux'), 'os.sep': lit('/'), 'typing.TYPE_CHECKING': FALSE,
    'sys.version_info': Tup([N.const(3), N.const(12), N.ZERO]),
})
T_RANGE_FULL = 400


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def method(kinds, *names):
    def deco(f):
        for k in kinds.split():
            for n in names or (f.__name__.lstrip('m_'),):
                METHODS[(k, n)] = f
        return f
    return deco


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def numlike(l):
    if isinstance(l, Const) and isinstance(l.v, bool):
        return N.const(int(l.v))
    return l


def cint(v):
    if isinstance(v, Const) and isinstance(v.v, bool):
        return int(v.v)
    if isinstance(v, Num):
        c = v.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


def need_int(v):
    c = cint(v)
    if c is None:
        raise Unsupported('symbolic integer where a constant is needed')
    return c


# --------------------------------------------------------------------------- types
NUMBER_EXT = {'numbers.Number', 'numbers.Real', 'numbers.Complex', 'numbers.Rational'}
NUMPY_SCALAR = {'numpy.floating', 'numpy.float64', 'numpy.number', 'numpy.generic', 'numpy.integer', 'numpy.int64'}


def isinst(I, st, l, c):
    """is leaf l an instance of class leaf c: gated boolean"""
    if isinstance(c, Tup):
        r = FALSE
        for x in c.items:
            r = OR(r, I.split(st, x, lambda s, y: isinst(I, s, l, y)))
        return r
    if isinstance(c, Ref):                # e.g. a list of classes is a TypeError in Python
        I.raise_exc(st, 'TypeError', 'isinstance() arg 2 must be a type or tuple of types')
    if isinstance(c, ClassRef):
        if isinstance(l, Ref):
            r = I.rec(st, l)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                return TRUE if c.ci in I.mro(r.cls) else FALSE
            return FALSE
        if isinstance(l, Opq):
            return dd.bvar(('isinstance', l, c.ci.name))
        return FALSE
    if isinstance(c, Builtin):
        n = c.k[0]
        if n == 'object':
            return TRUE
        if n == 'tuple' and isinstance(l, Ref) and I.rec(st, l).kind == 'inst' and isinstance(I.rec(st, l).cls, ClassInfo) \
                and any(k.name == 'named_tuple' for k in I.mro(I.rec(st, l).cls)):
            return TRUE
        if isinstance(l, Opq):
            return dd.bvar(('isinstance', l, n))
        if n == 'type':
            return TRUE if isinstance(l, (ClassRef, Builtin)) else FALSE
        if isinstance(l, Num):
            if n in ('int', 'float'):
                if l.const() is not None or n == 'int' and N.is_int(l):
                    whole = TRUE if N.is_int(l) else FALSE
                elif N.plain_input(l) is not None and not N.is_int(l):
                    whole = dd.bvar(('isint', l))       # a client may hand over 3 as well as 3.0
                else:
                    whole = FALSE
                return whole if n == 'int' else NOT(whole)
            return FALSE
        if isinstance(l, Const) and isinstance(l.v, bool):
            return TRUE if n in ('bool', 'int') else FALSE
        if isinstance(l, Ref):
            r = I.rec(st, l)
            if r.kind == 'inst':
                m = I.exc_matches(r.cls.ref if isinstance(r.cls, ClassInfo) else r.cls, c)
                return TRUE if m else FALSE
        k = I.class_of(st, l)
        if k == c:
            return TRUE
        if isinstance(k, Builtin):
            a, b = getattr(pybuiltins, k.k[0], None), getattr(pybuiltins, n, None)
            if isinstance(a, type) and isinstance(b, type):
                return TRUE if issubclass(a, b) else FALSE
        return FALSE
    if isinstance(c, Ext):
        n = c.k[0]
        if n in NUMBER_EXT or n in ('typing.SupportsFloat',):
            if isinstance(l, Opq):
                return dd.bvar(('isinstance', l, n))
            return TRUE if isinstance(l, Num) or (isinstance(l, Const) and isinstance(l.v, bool)) else FALSE
        if n in NUMPY_SCALAR:
            return FALSE if not isinstance(l, (Num, Opq)) else dd.bvar(('isinstance', l, n))
        if n in ('numpy.ndarray',):
            return TRUE if isinstance(l, Ref) and I.rec(st, l).kind == 'nd' else (
                dd.bvar(('isinstance', l, n)) if isinstance(l, Opq) else FALSE)
        base = n.rpartition('.')[2]
        if base in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Iterator', 'Callable', 'Mapping', 'Hashable',
                    'List', 'Dict', 'Tuple', 'MutableSequence', 'Set'):
            return TRUE if abc_check(I, st, l, base) else FALSE
        if base == 'SupportsRound':
            if isinstance(l, Ref) and I.rec(st, l).kind == 'inst' and isinstance(I.rec(st, l).cls, ClassInfo):
                return TRUE if I.cls_lookup(st, I.rec(st, l).cls, '__round__') else FALSE
            return TRUE if isinstance(l, Num) else FALSE
        if isinstance(l, Opq):
            return dd.bvar(('isinstance', l, n))
        if isinstance(l, Ref):
            r = I.rec(st, l)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                return TRUE if any(b == c for k in I.mro(r.cls) for b in k.bases) else FALSE
            if r.kind == 'impath' and n.endswith('ImagePath.Path'):
                return TRUE
        return FALSE
    if isinstance(c, Opq):
        return dd.bvar(('isinstance', l, c))
    raise Unsupported('isinstance against %s' % (c,))


def abc_check(I, st, l, base):
    if base == 'Callable':
        return isinstance(l, (Func, Bound, BMeth, Builtin, ClassRef, Partial, Ext, Opq))
    if isinstance(l, Ref):
        r = I.rec(st, l)
        if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
            names = {'Iterable': ['__iter__'], 'Sized': ['__len__'], 'Container': ['__contains__'], 'Hashable': ['__hash__'],
                     'Collection': ['__iter__', '__len__', '__contains__'], 'Iterator': ['__iter__', '__next__']}.get(base)
            return bool(names) and all(I.cls_lookup(st, r.cls, n) for n in names)
        kinds = {'list': {'Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'List', 'MutableSequence'},
                 'dict': {'Iterable', 'Collection', 'Sized', 'Container', 'Mapping', 'Dict'},
                 'set': {'Iterable', 'Collection', 'Sized', 'Container', 'Set'}, 'iter': {'Iterable', 'Iterator'},
                 'gen': {'Iterable', 'Iterator'}, 'nd': {'Iterable', 'Sized', 'Container', 'Collection'},
                 'impath': {'Iterable', 'Sized', 'Container', 'Collection'}}
        return base in kinds.get(r.kind, ())
    if isinstance(l, Tup):
        return base in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Tuple', 'Hashable')
    if isinstance(l, Str):
        return base in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Hashable')
    return base == 'Hashable'


@builtin('isinstance')
def b_isinstance(I, st, a, kw, node):
    return I.split(st, a[0], lambda s, l: I.split(s, a[1], lambda s2, c: isinst(I, s2, l, c)))


@builtin('issubclass')
def b_issubclass(I, st, a, kw, node):
    def one(l, c):
        if isinstance(c, Tup):
            r = FALSE
            for x in c.items:
                r = OR(r, one(l, x))
            return r
        if isinstance(l, ClassRef) and isinstance(c, ClassRef):
            return TRUE if c.ci in I.mro(l.ci) else FALSE
        m = I.exc_matches(l, c)
        if m is None:
            return dd.bvar(('issubclass', l, c))
        return TRUE if m else FALSE
    return apply(one, a[0], a[1])


@builtin('type')
def b_type(I, st, a, kw, node):
    if len(a) != 1:
        raise Unsupported('type() with 3 arguments')
    def one(s, l):
        if isinstance(l, Num):              # as isinstance(x, int) decides it
            if N.is_int(l):
                return Builtin('int')
            if l.const() is None and N.plain_input(l) is not None:
                return ite(dd.bvar(('isint', l)), Builtin('int'), Builtin('float'))
        return I.class_of(s, l)
    return I.split(st, a[0], one)


@builtin('callable')
def b_callable(I, st, a, kw, node):
    def one(s, l):
        if isinstance(l, Ref):
            r = I.rec(s, l)
            return TRUE if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(s, r.cls, '__call__') else FALSE
        if isinstance(l, Opq):
            return dd.bvar(('callable', l))
        return TRUE if isinstance(l, (Func, Bound, BMeth, Builtin, ClassRef, Partial, Ext)) else FALSE
    return I.split(st, a[0], one)


_MISSING = Opq('missing')


@builtin('getattr')
def b_getattr(I, st, a, kw, node):
    def one(s, n):
        if not isinstance(n, Str) or n.lit is None:
            raise Unsupported('getattr with a symbolic name')
        return I.getattr(s, a[0], n.lit, node, a[2] if len(a) > 2 else None)
    return I.split(st, a[1], one)


@builtin('hasattr')
def b_hasattr(I, st, a, kw, node):
    def one(s, l):
        n = a[1]
        if not isinstance(n, Str) or n.lit is None:
            raise Unsupported('hasattr with a symbolic name')
        if isinstance(l, Opq):
            return dd.bvar(('hasattr', l, n.lit))
        v = I.getattr(s, l, n.lit, node, _MISSING)
        return apply(lambda x: FALSE if x == _MISSING else TRUE, v)
    return I.split(st, a[0], one)


@builtin('setattr')
def b_setattr(I, st, a, kw, node):
    def one(s, n):
        if not isinstance(n, Str) or n.lit is None:
            raise Unsupported('setattr with a symbolic name')
        I.setattr(s, a[0], n.lit, a[2], node)
        return NONE
    return I.split(st, a[1], one)


@builtin('delattr')
def b_delattr(I, st, a, kw, node):
    I.delattr(st, a[0], a[1].lit, node)
    return NONE


@builtin('vars')
def b_vars(I, st, a, kw, node):
    return I.getattr(st, a[0], '__dict__', node)


@builtin('id', 'hash')
def b_id(I, st, a, kw, node):
    def one(s, l):
        if isinstance(l, Ref):
            I.hashable(s, l, node) if False else None
        return N.opaque(('id', l), 'int')
    return I.split(st, a[0], one)


@builtin('object')
def b_object(I, st, a, kw, node):
    return I.alloc(st, 'obj', None, {})


@builtin('noop', 'object.__init__', 'object.__init_subclass__')
def b_noop(I, st, a, kw, node):
    return NONE


@builtin('object.__new__')
def b_new(I, st, a, kw, node):
    return apply(lambda c: I.alloc(st, 'inst', c.ci, {}), a[0])


@builtin('object.__setattr__')
def b_osetattr(I, st, a, kw, node):
    n = a[1]
    if not isinstance(n, Str) or n.lit is None:
        raise Unsupported('symbolic attribute name')

    def one(s, l):
        I.write(s, l.oid, n.lit, a[2])
        return NONE
    return I.split(st, a[0], one)


@builtin('object.__eq__')
def b_oeq(I, st, a, kw, node):
    return apply(lambda x, y: TRUE if x == y else NOTIMPL, a[0], a[1])


@builtin('property')
def b_property(I, st, a, kw, node):
    a = list(a) + [NONE] * (3 - len(a))
    for i, k in enumerate(('fget', 'fset', 'fdel')):
        if k in kw:
            a[i] = kw[k]
    return Wrap('prop', *a[:3])


@builtin('staticmethod')
def b_static(I, st, a, kw, node):
    return Wrap('static', a[0])


@builtin('classmethod')
def b_class(I, st, a, kw, node):
    return Wrap('class', a[0])


@builtin('super')
def b_super(I, st, a, kw, node):
    return apply(lambda c, o: SuperRef(c.ci, o), a[0], a[1])


@builtin('print')
def b_print(I, st, a, kw, node):
    I.event(st, 'print', a)
    return NONE


@builtin('open', 'input')
def b_open(I, st, a, kw, node):
    return I.call_opaque(st, Ext('builtins.open'), a, kw, node)


@builtin('exit', 'quit')
def b_exit(I, st, a, kw, node):
    I.raise_exc(st, 'SystemExit', '', node)


# --------------------------------------------------------------------------- numbers
@builtin('abs')
def b_abs(I, st, a, kw, node):
    def one(s, l):
        l = numlike(l)
        if isinstance(l, Num):
            return N.fabs(l)
        if isinstance(l, Ref):
            r = I.rec(s, l)
            if r.kind == 'nd':
                return I.nd_map(s, l, lambda x: apply(N.fabs, x))
            return I.call_method(s, l, '__abs__', [])
        if isinstance(l, Opq):
            return N.opaque(('abs', l), 'nonneg')
        I.raise_exc(s, 'TypeError', 'bad operand type for abs()', node)
    return lift(I, st, a[0], one, N.fabs)


def lift(I, st, v, one, fast):
    if all(isinstance(l, Num) for l in leaves(v)):
        return apply(fast, v)
    return I.split(st, v, one)


@builtin('round')
def b_round(I, st, a, kw, node):
    nd = a[1] if len(a) > 1 else kw.get('ndigits', NONE)

    def one(s, l, d):
        l = numlike(l)
        if isinstance(l, Num):
            return N.fround(l, None if d == NONE else d)
        if isinstance(l, Ref):
            r = I.rec(s, l)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(s, r.cls, '__round__'):
                return I.call_method(s, l, '__round__', [] if d == NONE else [d])
            if r.kind == 'nd':
                return I.nd_map(s, l, lambda x: apply(lambda y: N.fround(y, None if d == NONE else d), x))
        if isinstance(l, Opq):
            return Opq('round', l, d)
        I.raise_exc(s, 'TypeError', 'type does not define __round__', node)
    return I.split(st, a[0], lambda s, l: I.split(s, nd, lambda s2, d: one(s2, l, d)))


@builtin('int')
def b_int(I, st, a, kw, node):
    if not a:
        return N.ZERO

    def one(s, l):
        l = numlike(l)
        if isinstance(l, Num):
            return N.trunc(l)
        if isinstance(l, Str):
            if l.lit is not None:
                try:
                    return N.const(int(l.lit, need_int(a[1]) if len(a) > 1 else 10))
                except ValueError:
                    I.raise_exc(s, 'ValueError', 'invalid literal for int()', node)
            if len(l.parts) == 1 and l.parts[0][0] == 'num' and l.parts[0][1] == '' and N.is_int(l.parts[0][2]):
                return l.parts[0][2]
            return N.opaque(('int', l), 'int')
        if isinstance(l, Opq):
            return N.opaque(('int', l), 'int')
        if isinstance(l, Ref) and I.rec(s, l).kind == 'nd':
            c = I.nd_content(s, l)
            if len(c.items) == 1:
                return apply(N.trunc, c.items[0])
        if isinstance(l, Ref) and I.rec(s, l).kind == 'inst' and isinstance(I.rec(s, l).cls, ClassInfo):
            for nm in ('__int__', '__index__', '__trunc__'):
                if I.cls_lookup(s, I.rec(s, l).cls, nm):
                    return I.call_method(s, l, nm, [])
        I.raise_exc(s, 'TypeError', 'int() argument', node)
    return lift(I, st, a[0], one, N.trunc)


@builtin('float')
def b_float(I, st, a, kw, node):
    if not a:
        return N.ZERO

    def one(s, l):
        l = numlike(l)
        if isinstance(l, Num):
            return l
        if isinstance(l, Str):
            if l.lit is not None:
                try:
                    return N.const(N.F(l.lit))
                except ValueError:
                    try:
                        float(l.lit)
                    except ValueError:
                        I.raise_exc(s, 'ValueError', 'could not convert string to float', node)
            return N.opaque(('float', l.lit if l.lit is not None else l))
        if isinstance(l, Opq):
            return N.opaque(('float', l))
        if isinstance(l, Ref) and I.rec(s, l).kind == 'nd':
            c = I.nd_content(s, l)
            if len(c.items) == 1:
                return c.items[0]
        if isinstance(l, Ref) and I.rec(s, l).kind == 'inst' and isinstance(I.rec(s, l).cls, ClassInfo):
            for nm in ('__float__', '__index__'):
                if I.cls_lookup(s, I.rec(s, l).cls, nm):
                    return I.call_method(s, l, nm, [])
        I.raise_exc(s, 'TypeError', 'float() argument', node)
    return lift(I, st, a[0], one, lambda x: x)


@builtin('complex')
def b_complex(I, st, a, kw, node):
    raise Unsupported('complex')


@builtin('bool')
def b_bool(I, st, a, kw, node):
    return I.truth(st, a[0]) if a else FALSE


@builtin('divmod')
def b_divmod(I, st, a, kw, node):
    return Tup([I.binop(st, ast.FloorDiv(), a[0], a[1], node), I.binop(st, ast.Mod(), a[0], a[1], node)])


@builtin('pow')
def b_pow(I, st, a, kw, node):
    return I.binop(st, ast.Pow(), a[0], a[1], node)


def minmax(sign):
    def f(I, st, a, kw, node):
        if len(a) == 1:
            items = I.items(st, a[0], node)
            if not items:
                if 'default' in kw:
                    return kw['default']
                I.raise_exc(st, 'ValueError', '%s() arg is an empty sequence' % ('max' if sign > 0 else 'min'), node)
        else:
            items = list(a)
        if 'key' not in kw or kw['key'] == NONE:
            if all(isinstance(l, Num) for x in items for l in leaves(x)):
                g = (lambda *xs: N.maxn(xs)) if sign > 0 else (lambda *xs: N.minn(xs))
                out = items[0]
                for x in items[1:]:
                    out = apply(g, out, x)
                return out
            keys = items
        else:
            keys = [I.call(st, kw['key'], [x], {}, node) for x in items]
        best, bk = items[0], keys[0]
        for x, k in zip(items[1:], keys[1:]):
            c = I.truth(st, I.order(st, ast.Gt() if sign > 0 else ast.Lt(), k, bk, node))
            best, bk = ite(c, x, best), ite(c, k, bk)
        return best
    return f


BUILTINS['max'] = minmax(1)
BUILTINS['min'] = minmax(-1)


@builtin('sum')
def b_sum(I, st, a, kw, node):
    out = a[1] if len(a) > 1 else kw.get('start', N.ZERO)
    for x in I.items(st, a[0], node):
        out = I.binop(st, ast.Add(), out, x, node)
    return out


def anyall(stop):
    def f(I, st, a, kw, node):
        """short-circuiting: the consumer stops the producer at the first deciding element"""
        hits = []
        out = {'v': None}

        def consume(s, x):
            c = I.truth(s, x)
            c = restrict(c, s.pc)
            if c is None:
                raise DeadPath()
            hit = c if stop else NOT(c)
            s1 = s.fork(hit)
            if not s1.dead:
                hits.append((s1.pc, s1.heap, TRUE if stop else FALSE))
            s.pc = AND(s.pc, NOT(hit))
            if s.dead:
                raise DeadPath()
        try:
            I.iterate(st, a[0], consume, node)
        except DeadPath:
            st.pc = FALSE
        if not st.dead:
            hits.append((st.pc, st.heap, FALSE if stop else TRUE))
        if not hits:
            raise DeadPath()
        st.pc, st.heap, v = I.merge_many(hits)
        return v
    return f


BUILTINS['any'] = anyall(True)
BUILTINS['all'] = anyall(False)


# --------------------------------------------------------------------------- sequences
@builtin('len')
def b_len(I, st, a, kw, node):
    def one(s, l):
        if isinstance(l, Tup):
            return N.const(len(l.items))
        if isinstance(l, Str):
            if l.lit is not None:
                return N.const(len(l.lit))
            return N.opaque(('strlen', l), 'posint')
        if isinstance(l, Ref):
            r = I.rec(s, l)
            if r.kind in ('list', 'dict', 'set', 'impath'):
                return apply(lambda x: N.const(len(x.items)), r.f['_'])
            if r.kind == 'nd':
                c = I.nd_content(s, l)
                return N.const(c.shape[0])
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(s, r.cls, '__len__'):
                return I.call_method(s, l, '__len__', [])
        if isinstance(l, Opq):
            return N.opaque(('len', l), 'nonnegint')
        I.raise_exc(s, 'TypeError', 'object of type %s has no len()' % (I.class_of(s, l),), node)
    return I.split(st, a[0], one)


@builtin('range')
def b_range(I, st, a, kw, node):
    def one(*xs):
        v = [cint(x) for x in xs]
        if any(x is None for x in v):
            raise Unsupported('symbolic range')
        if len(range(*v)) > 2000:
            raise Unsupported('long range')
        return Tup([N.const(i) for i in range(*v)])
    return apply(one, *a)


@builtin('zip')
def b_zip(I, st, a, kw, node):
    cols = []
    inf = []
    for x in a:
        if isinstance(x, Ref) and 'lazy' in I.rec(st, x).f:
            inf.append(len(cols))
            cols.append(x)
        else:
            cols.append(seq_gv(I, st, x, node))
    fin = [c for i, c in enumerate(cols) if i not in inf]
    if not fin and inf:
        raise Unsupported('zip of unbounded iterators')
    if inf:
        n = min(max(len(l.items) for l in leaves(c)) for c in fin)
        for i in inf:
            cols[i] = Tup([lazy_next(I, st, cols[i]) for _ in range(n)])

    def one(*ts):
        return Tup([Tup(row) for row in zip(*(t.items for t in ts))])
    c = apply(one, *cols) if cols else Tup(())
    return I.alloc(st, 'iter', None, {'_': c, 'pos': Const(0)})


def lazy_next(I, st, ref):
    r = I.rec(st, ref)
    k = r.f['lazy'].v
    if k == 'count':
        v = r.f['cur']
        I.write(st, ref.oid, 'cur', apply(N.add, v, r.f['step']))
        return v
    if k == 'repeat':
        return r.f['cur']
    if k == 'cycle':
        xs = r.f['items'].items
        i = r.f['i'].v
        I.write(st, ref.oid, 'i', Const(i + 1))
        return xs[i % len(xs)]
    raise Unsupported('lazy iterator')


def seq_gv(I, st, v, node=None):
    """gated Tup of the elements of an iterable"""
    c = I.split(st, v, lambda s, l: I.seq_items(s, l, node))
    c = restrict(c, st.pc)
    if c is None:
        raise DeadPath()
    return c


@builtin('enumerate')
def b_enumerate(I, st, a, kw, node):
    start = need_int(a[1] if len(a) > 1 else kw.get('start', N.ZERO))
    c = seq_gv(I, st, a[0], node)
    c = apply(lambda t: Tup([Tup((N.const(i + start), x)) for i, x in enumerate(t.items)]), c)
    return I.alloc(st, 'iter', None, {'_': c, 'pos': Const(0)})


@builtin('reversed')
def b_reversed(I, st, a, kw, node):
    def one(s, l):
        if isinstance(l, Ref) and I.rec(s, l).kind == 'inst' and isinstance(I.rec(s, l).cls, ClassInfo) and \
                I.cls_lookup(s, I.rec(s, l).cls, '__reversed__'):
            return I.call_method(s, l, '__reversed__', [])
        c = seq_gv(I, s, l, node)
        return I.alloc(s, 'iter', None, {'_': apply(lambda t: Tup(t.items[::-1]), c), 'pos': Const(0)})
    return I.split(st, a[0], one)


def sort_items(I, st, items, key, reverse, node):
    if key is None or key == NONE:
        keys = list(items)
    else:
        keys = [I.call(st, key, [x], {}, node) for x in items]
    out, ks = [], []
    if len(items) > 6 and any(not concrete_key(k) for k in keys):
        raise Unsupported('sorting a long symbolic sequence')
    for x, k in zip(items, keys):
        # insert (x, k) after all elements that are <= k  (stable)
        carry, ck = x, k
        new, nk = [], []
        placed = FALSE          # condition: carry already inserted, now shifting
        for y, yk in zip(out, ks):
            lt = I.truth(st, I.order(st, ast.Gt() if reverse else ast.Lt(), ck, yk, node))
            swap = OR(placed, lt)
            new.append(ite(swap, carry, y))
            nk.append(ite(swap, ck, yk))
            carry, ck = ite(swap, y, carry), ite(swap, yk, ck)
            placed = swap
        new.append(carry)
        nk.append(ck)
        out, ks = new, nk
    return out


def concrete_key(k):
    if isinstance(k, Num):
        return k.const() is not None or not N.atoms_of(k)
    if isinstance(k, Str):
        return k.lit is not None
    if isinstance(k, Tup):
        return all(concrete_key(x) for x in k.items)
    return False


@builtin('sorted')
def b_sorted(I, st, a, kw, node):
    rev = kw.get('reverse', FALSE)
    c = seq_gv(I, st, a[0], node)
    return I.split(st, c, lambda s, t: I.new_list(s, sort_items(I, s, list(t.items), kw.get('key'), rev == TRUE, node)))


@builtin('list')
def b_list(I, st, a, kw, node):
    if not a:
        return I.new_list(st, [])
    c = seq_gv(I, st, a[0], node)
    return I.alloc(st, 'list', None, {'_': c})


@builtin('tuple')
def b_tuple(I, st, a, kw, node):
    if not a:
        return Tup(())
    return seq_gv(I, st, a[0], node)


@builtin('set', 'frozenset')
def b_set(I, st, a, kw, node):
    ref = I.alloc(st, 'set', None, {'_': Map()})
    if a:
        METHODS[('set', 'update')](I, st, ref, [a[0]], {}, node)
    return ref


@builtin('dict')
def b_dict(I, st, a, kw, node):
    ref = I.new_dict(st)
    if a:
        METHODS[('dict', 'update')](I, st, ref, [a[0]], {}, node)
    for k, v in kw.items():
        I.setitem(st, ref, lit(k), v, node)
    return ref


@builtin('iter')
def b_iter(I, st, a, kw, node):
    if len(a) == 2:
        return I.call(st, I.pystd(st, 'iter_until'), a, {}, node)
    def one(s, l):
        if isinstance(l, Ref):
            r = I.rec(s, l)
            if r.kind in ('iter', 'gen'):
                return l
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(s, r.cls, '__iter__'):
                return I.call_method(s, l, '__iter__', [])
        return I.alloc(s, 'iter', None, {'_': seq_gv(I, s, l, node), 'pos': Const(0)})
    return I.split(st, a[0], one)


@builtin('next')
def b_next(I, st, a, kw, node):
    def one(s, l):
        if not isinstance(l, Ref):
            if isinstance(l, Opq):
                I.event(s, 'next', [l])
                I.serial += 1
                return Opq('next', l, I.serial)
            I.raise_exc(s, 'TypeError', 'not an iterator', node)
        r = I.rec(s, l)
        if 'lazy' in r.f:
            return lazy_next(I, s, l)
        if r.kind == 'gen':
            if r.f.get('done') == TRUE:
                c = Tup(())
            else:
                was, I.truncated = I.truncated, False
                try:
                    c = I.collect_gen(s, l)
                finally:
                    cut, I.truncated = I.truncated, was
            s.heap[l.oid] = Rec('iter', None, {'_': c, 'pos': Const(0)})
            if r.f.get('done') != TRUE and cut:
                s.heap[l.oid].f['cut'] = TRUE
            r = I.rec(s, l)
        if r.kind == 'inst':
            return I.call_method(s, l, '__next__', [])
        if r.kind != 'iter':
            I.raise_exc(s, 'TypeError', "'%s' object is not an iterator" % r.kind, node)
        v = apply(lambda t, p: t.items[p.v] if p.v < len(t.items) else UNDEF, r.f['_'], r.f['pos'])
        I.write(s, l.oid, 'pos', apply(lambda p: Const(p.v + 1), r.f['pos']))
        v = restrict(v, s.pc)
        if v is None:
            raise DeadPath()
        bad = guard_of(v, UNDEF)
        if bad != FALSE:
            if 'cut' in r.f:
                raise Unsupported('far into an unbounded iterator')
            if len(a) > 1:
                return apply(lambda x: a[1] if x is UNDEF else x, v)
            I.guard_raise(s, bad, 'StopIteration', '', node)
            v = restrict(v, s.pc)
        return v
    return I.split(st, a[0], one)


@builtin('map')
def b_map(I, st, a, kw, node):
    if len(a) == 2 and isinstance(a[1], Ref) and 'lazy' in I.rec(st, a[1]).f:
        return I.call(st, I.pystd(st, 'map_'), a, {}, node)
    cols = [seq_gv(I, st, x, node) for x in a[1:]]
    rows = apply(lambda *ts: Tup([Tup(r) for r in zip(*(t.items for t in ts))]), *cols)

    def one(s, t):
        out = []
        for row in t.items:
            out.append(I.call(s, a[0], list(row.items), {}, node))
        return I.new_iter(s, out)
    return I.split(st, rows, one)


@builtin('filter')
def b_filter(I, st, a, kw, node):
    if isinstance(a[1], Ref) and 'lazy' in I.rec(st, a[1]).f:
        return I.call(st, I.pystd(st, 'filter_'), a, {}, node)
    out = I.new_list(st, [])

    def consume(s, x):
        c = I.truth(s, x if a[0] == NONE else I.call(s, a[0], [x], {}, node))

        def put(s2):
            I.write(s2, out.oid, '_', apply(lambda t: Tup(t.items + (x,)), I.content(s2, out)))
        I.branch(s, c, put, lambda s2: None)
    I.iterate(st, a[1], consume, node)
    if st.dead:
        raise DeadPath()
    return I.alloc(st, 'iter', None, {'_': I.content(st, out), 'pos': Const(0)})


@builtin('slice')
def b_slice(I, st, a, kw, node):
    a = [NONE] + list(a) if len(a) == 1 else list(a)
    a += [NONE] * (3 - len(a))
    return apply(lambda *x: Slice(*x), *a)


@builtin('str')
def b_str(I, st, a, kw, node):
    return I.to_str(st, a[0]) if a else lit('')


@builtin('repr', 'ascii')
def b_repr(I, st, a, kw, node):
    return I.to_repr(st, a[0])


@builtin('format')
def b_format(I, st, a, kw, node):
    if len(a) > 1 and isinstance(a[1], Str) and a[1].lit:
        return I.fmt_spec(st, a[0], a[1].lit)
    return I.to_str(st, a[0])


@builtin('chr', 'ord', 'bin', 'hex', 'oct')
def b_chr(I, st, a, kw, node):
    raise Unsupported('chr/ord')


def _chrx(name, f):
    def g(I, st, a, kw, node):
        v = a[0].lit if isinstance(a[0], Str) else cint(a[0])
        if v is None:
            raise Unsupported(name)
        try:
            return py_value(I, st, f(v))
        except (ValueError, TypeError) as e:
            I.raise_exc(st, type(e).__name__, str(e), node)
    BUILTINS[name] = g


for _n, _f in (('chr', chr), ('ord', ord), ('bin', bin), ('hex', hex), ('oct', oct)):
    _chrx(_n, _f)


@builtin('dict.fromkeys')
def b_fromkeys(I, st, a, kw, node):
    ref = I.new_dict(st)
    for k in I.items(st, a[0], node):
        I.setitem(st, ref, k, a[1] if len(a) > 1 else NONE, node)
    return ref


@builtin('str.join', 'str.format', 'str.lower', 'str.upper', 'str.strip')
def b_strm(I, st, a, kw, node):
    raise Unsupported('unbound str method')


# --------------------------------------------------------------------------- builtin methods
def call_bmeth(self, st, f, args, kwargs, node=None):
    name, l = f.k
    if isinstance(l, Wrap):
        p = list(l.k)
        p[{'getter': 1, 'setter': 2, 'deleter': 3}[name]] = args[0]
        return Wrap(*p)
    if isinstance(l, Ref):
        r = self.rec(st, l)
        kind = r.kind
        if kind == 'inst' or (kind, name) not in METHODS:
            if name in ('__init__', '__init_subclass__'):
                if isinstance(r.cls, Builtin) or kind == 'inst' and any(isinstance(b, Builtin) for c in self.mro(r.cls) for b in c.bases):
                    self.write(st, l.oid, 'args', Tup(args))
                elif args or kwargs:
                    self.raise_exc(st, 'TypeError', 'object.__init__() takes exactly one argument', node)
                return NONE
            if name == '__eq__':
                return apply(lambda o: TRUE if o == l else NOTIMPL, args[0])
            if name == '__ne__':
                e = self.rich_eq(st, l, args[0]) if not isinstance(args[0], Ite) else None
                if e is None:
                    raise Unsupported('object.__ne__')
                return NOT(self.truth(st, e))
            if name in ('__repr__', '__str__'):
                return Str((('opq', ('objrepr', l)),))
            if name == '__hash__':
                return N.opaque(('id', l), 'int')
            if name == '__setattr__':
                n = args[0]
                old = self._in_setattr
                self._in_setattr = True
                try:
                    self.setattr(st, l, n.lit, args[1], node)
                finally:
                    self._in_setattr = old
                return NONE
            if name == '__getattribute__':
                return self.getattr(st, l, args[0].lit, node)
            if kind == 'gen' and name == 'close':
                self.write(st, l.oid, 'done', TRUE)
                return NONE
            raise Unsupported('object method %s' % name)
    else:
        kind = 'str' if isinstance(l, Str) else 'tuple' if isinstance(l, Tup) else 'num' if isinstance(l, Num) else 'type'
    h = METHODS.get((kind, name))
    if h is None:
        if name == '__new__' and args:
            return BUILTINS['object.__new__'](self, st, args, kwargs, node)
        raise Unsupported('%s.%s' % (kind, name))
    return h(self, st, l, list(args), dict(kwargs), node)


Interp.call_bmeth = call_bmeth


def list_extend(self, st, l, v):
    c = seq_gv(self, st, v)
    self.write(st, l.oid, '_', apply(lambda t, x: Tup(t.items + x.items), self.content(st, l), c))


Interp.list_extend = list_extend


@method('list', 'append')
def m_append(I, st, l, a, kw, node):
    v = a[0]
    I.write(st, l.oid, '_', apply(lambda t: Tup(t.items + (v,)), I.content(st, l)))
    return NONE


@method('list', 'extend', '__iadd__')
def m_extend(I, st, l, a, kw, node):
    I.list_extend(st, l, a[0])
    return NONE


@method('list', 'appendleft')
def m_appendleft(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', apply(lambda t: Tup((a[0],) + t.items), I.content(st, l)))
    return NONE


@method('list', 'popleft')
def m_popleft(I, st, l, a, kw, node):
    return METHODS[('list', 'pop')](I, st, l, [N.ZERO], {}, node)


@method('list', 'extendleft')
def m_extendleft(I, st, l, a, kw, node):
    for x in I.items(st, a[0], node):
        m_appendleft(I, st, l, [x], {}, node)
    return NONE


@method('list', 'rotate')
def m_rotate(I, st, l, a, kw, node):
    n = need_int(a[0]) if a else 1

    def turned(t):
        k = -n % len(t.items) if t.items else 0
        return Tup(t.items[k:] + t.items[:k])
    I.write(st, l.oid, '_', apply(turned, I.content(st, l)))
    return NONE


@method('list', 'insert')
def m_insert(I, st, l, a, kw, node):
    i = need_int(a[0])

    def put(t):
        xs = list(t.items)
        xs.insert(i, a[1])
        return Tup(xs)
    I.write(st, l.oid, '_', apply(put, I.content(st, l)))
    return NONE


@method('list', 'pop')
def m_pop(I, st, l, a, kw, node):
    i = need_int(a[0]) if a else -1
    c = restrict(I.content(st, l), st.pc)
    if c is None:
        raise DeadPath()
    bad = apply(lambda t: FALSE if -len(t.items) <= i < len(t.items) else TRUE, c)
    I.guard_raise(st, bad, 'IndexError', 'pop from empty list', node)
    c = restrict(c, st.pc)
    v = apply(lambda t: t.items[i], c)

    def rm(t):
        xs = list(t.items)
        xs.pop(i)
        return Tup(xs)
    I.write(st, l.oid, '_', apply(rm, c))
    return v


@method('list', 'remove')
def m_remove(I, st, l, a, kw, node):
    def one(s, t):
        # first position equal to the argument, gated
        out, found = t, FALSE
        res = UNDEF
        for i in range(len(t.items) - 1, -1, -1):
            e = I.eq(s, t.items[i], a[0], True)
            res = ite(e, Tup(t.items[:i] + t.items[i + 1:]), res)
        bad = guard_of(res, UNDEF)
        I.guard_raise(s, bad, 'ValueError', 'list.remove(x): x not in list', node)
        I.write(s, l.oid, '_', restrict(res, s.pc))
        return NONE
    return I.split(st, I.content(st, l), one)


@method('list', 'clear')
def m_lclear(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', Tup(()))
    return NONE


@method('list', 'copy', '__copy__')
def m_lcopy(I, st, l, a, kw, node):
    return I.alloc(st, 'list', None, {'_': I.content(st, l)})


@method('list', 'reverse')
def m_lreverse(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', apply(lambda t: Tup(t.items[::-1]), I.content(st, l)))
    return NONE


@method('list', 'sort')
def m_lsort(I, st, l, a, kw, node):
    def one(s, t):
        I.write(s, l.oid, '_', Tup(sort_items(I, s, list(t.items), kw.get('key'), kw.get('reverse', FALSE) == TRUE, node)))
        return NONE
    return I.split(st, I.content(st, l), one)


@method('list tuple', 'index')
def m_index(I, st, l, a, kw, node):
    def one(s, t):
        res = UNDEF
        for i in range(len(t.items) - 1, -1, -1):
            res = ite(I.eq(s, t.items[i], a[0], True), N.const(i), res)
        I.guard_raise(s, guard_of(res, UNDEF), 'ValueError', 'value is not in list', node)
        return restrict(res, s.pc)
    return I.split(st, l if isinstance(l, Tup) else I.content(st, l), one)


@method('list tuple', 'count')
def m_count(I, st, l, a, kw, node):
    def one(s, t):
        out = N.ZERO
        for x in t.items:
            out = apply(N.add, out, ite(I.eq(s, x, a[0], True), N.ONE, N.ZERO))
        return out
    return I.split(st, l if isinstance(l, Tup) else I.content(st, l), one)


@method('list', '__len__')
def m_llen(I, st, l, a, kw, node):
    return b_len(I, st, [l], {}, node)


@method('list dict set tuple', '__iter__')
def m_liter(I, st, l, a, kw, node):
    return b_iter(I, st, [l], {}, node)


@method('list dict nd', '__getitem__')
def m_getitem(I, st, l, a, kw, node):
    return I.getitem(st, l, a[0], node)


@method('list dict', '__setitem__')
def m_setitem(I, st, l, a, kw, node):
    I.setitem(st, l, a[0], a[1], node)
    return NONE


@method('iter', '__next__')
def m_next(I, st, l, a, kw, node):
    return b_next(I, st, [l], {}, node)


# dict
@method('dict', 'get')
def m_get(I, st, l, a, kw, node):
    d = a[1] if len(a) > 1 else kw.get('default', NONE)
    return I.split(st, I.content(st, l), lambda s, m: I.split(s, a[0], lambda s2, k: I.map_get(s2, m, k, node, d)))


@method('dict', 'setdefault')
def m_setdefault(I, st, l, a, kw, node):
    d = a[1] if len(a) > 1 else NONE

    def one(s, m, k):
        v = I.map_get(s, m, k, node, UNDEF)
        v = restrict(v, s.pc)
        if v is None:
            raise DeadPath()
        g = guard_of(v, UNDEF)
        if g != FALSE:
            new = I.map_put(s, m, k, d, node)
            I.write(s, l.oid, '_', ite(g, new, m))
            v = apply(lambda x: d if x is UNDEF else x, v)
        return v
    return I.split(st, I.content(st, l), lambda s, m: I.split(s, a[0], lambda s2, k: one(s2, m, k)))


@method('dict', 'items')
def m_items(I, st, l, a, kw, node):
    return I.alloc(st, 'list', None, {'_': apply(lambda m: Tup([Tup((k, v)) for k, v in m.items]), I.content(st, l))})


@method('dict', 'keys')
def m_keys(I, st, l, a, kw, node):
    return I.alloc(st, 'list', None, {'_': apply(lambda m: Tup([k for k, v in m.items]), I.content(st, l))})


@method('dict', 'values')
def m_values(I, st, l, a, kw, node):
    return I.alloc(st, 'list', None, {'_': apply(lambda m: Tup([v for k, v in m.items]), I.content(st, l))})


@method('dict', 'copy')
def m_dcopy(I, st, l, a, kw, node):
    return I.alloc(st, 'dict', None, {'_': I.content(st, l)})


@method('dict set', 'clear')
def m_dclear(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', Map())
    return NONE


@method('dict', 'update')
def m_update(I, st, l, a, kw, node):
    if a:
        def one(s, x):
            if isinstance(x, Ref) and I.rec(s, x).kind == 'dict':
                def two(s2, m):
                    for k, v in m.items:
                        I.setitem(s2, l, k, v, node)
                    return NONE
                return I.split(s, I.content(s, x), two)
            for kv in I.items(s, x, node):
                k, v = I.items(s, kv, node)
                I.setitem(s, l, k, v, node)
            return NONE
        I.split(st, a[0], one)
    for k, v in kw.items():
        I.setitem(st, l, lit(k), v, node)
    return NONE


@method('dict', 'popitem')
def m_popitem(I, st, l, a, kw, node):
    def one(s, m):
        if not m.items:
            I.raise_exc(s, 'KeyError', 'popitem(): dictionary is empty', node)
        k, v = m.items[-1]
        I.write(s, l.oid, '_', Map(m.items[:-1]))
        return Tup([k, v])
    return I.split(st, I.content(st, l), one)


@method('dict', 'pop')
def m_dpop(I, st, l, a, kw, node):
    v = I.split(st, I.content(st, l), lambda s, m: I.split(s, a[0], lambda s2, k: I.map_get(s2, m, k, node, a[1] if len(a) > 1 else None)))

    def rm(m, k):
        return Map([(kk, x) for kk, x in m.items if kk != k])
    I.write(st, l.oid, '_', apply(rm, restrict(I.content(st, l), st.pc), a[0]))
    return v


@method('dict', '__contains__')
def m_dcontains(I, st, l, a, kw, node):
    return I.contains(st, l, a[0], node)


# set
def canon_key(I, st, k):
    return k


@method('set', 'add')
def m_sadd(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', I.split(st, I.content(st, l), lambda s, m: I.split(s, a[0], lambda s2, k: I.map_put(s2, m, k, NONE, node))))
    return NONE


@method('set', 'update')
def m_supdate(I, st, l, a, kw, node):
    for it in a:
        I.iterate(st, it, lambda s, x: m_sadd(I, s, l, [x], {}, node), node)
    return NONE


@method('set', 'discard', 'remove')
def m_sdiscard(I, st, l, a, kw, node):
    I.write(st, l.oid, '_', apply(lambda m, k: Map([(kk, x) for kk, x in m.items if kk != k]), I.content(st, l), a[0]))
    return NONE


@method('set', 'copy')
def m_scopy(I, st, l, a, kw, node):
    return I.alloc(st, 'set', None, {'_': I.content(st, l)})


@method('set', 'union')
def m_sunion(I, st, l, a, kw, node):
    r = m_scopy(I, st, l, [], {}, node)
    m_supdate(I, st, r, a, kw, node)
    return r


def set_filter(keep):
    def f(I, st, l, a, kw, node):
        others = I.items(st, a[0], node)

        def one(s, m):
            out = []
            for k, _ in m.items:
                e = FALSE
                for o in others:
                    e = OR(e, I.eq(s, k, o, True))
                if e not in (TRUE, FALSE):
                    raise Unsupported('set operation on symbolic keys')
                if (e == TRUE) == keep:
                    out.append((k, NONE))
            return I.alloc(s, 'set', None, {'_': Map(out)})
        return I.split(st, I.content(st, l), one)
    return f


METHODS[('set', 'intersection')] = set_filter(True)
METHODS[('set', 'difference')] = set_filter(False)


def known_in(I, s, k, items):
    e = FALSE
    for o in items:
        e = OR(e, I.eq(s, k, o, True))
    if e not in (TRUE, FALSE):
        raise Unsupported('set relation of symbolic keys')
    return e == TRUE


def set_relation(I, st, name, xs, ys):
    if name == 'isdisjoint':
        return TRUE if not any(known_in(I, st, x, ys) for x in xs) else FALSE
    if name == 'issuperset':
        xs, ys = ys, xs
    return TRUE if all(known_in(I, st, x, ys) for x in xs) else FALSE


def m_srel(name):
    def f(I, st, l, a, kw, node):
        others = I.items(st, a[0], node)
        return I.split(st, I.content(st, l), lambda s, m: set_relation(I, s, name, [k for k, _ in m.items], others))
    return f


for _n in ('issubset', 'issuperset', 'isdisjoint'):
    METHODS[('set', _n)] = m_srel(_n)


# str
@method('str', 'join')
def m_join(I, st, l, a, kw, node):
    c = seq_gv(I, st, a[0], node)

    def one(s, t):
        out = []
        for i, x in enumerate(t.items):
            if i:
                out.append(l)

            def chk(s2, y):
                if not isinstance(y, (Str, Opq)):
                    I.raise_exc(s2, 'TypeError', 'sequence item: expected str instance', node)
                return y if isinstance(y, Str) else Str((('opq', y),))
            out.append(I.split(s, x, chk))
        return I.str_cat(s, out)
    return I.split(st, c, one)


def strip_parts(parts, name, chars):
    parts = list(parts)
    for side, method in ((0, 'lstrip'), (-1, 'rstrip')):
        if name not in ('strip', method):
            continue
        while parts:
            p = parts[side]
            if not isinstance(p, str):
                if p[0] in ('num', 'reprstr') and (chars is None or not set(chars) & set('0123456789.-+einfa\'"')):
                    break
                return None
            p = getattr(p, method)(chars)
            if p:
                parts[side] = p
                break
            del parts[side]
    return tuple(parts)


def lit_method(name, *opts):
    def f(I, st, l, a, kw, node):
        if l.lit is not None and all(isinstance(x, Str) and x.lit is not None or cint(x) is not None or x == NONE for x in a):
            args = [x.lit if isinstance(x, Str) else None if x == NONE else cint(x) for x in a]
            try:
                r = getattr(l.lit, name)(*args)
            except (ValueError, TypeError) as e:
                I.raise_exc(st, type(e).__name__, str(e), node)
            return py_value(I, st, r)
        if name in ('strip', 'lstrip', 'rstrip') and (not a or a[0] == NONE or isinstance(a[0], Str) and a[0].lit is not None):
            r = strip_parts(l.parts, name, a[0].lit if a and a[0] != NONE else None)
            if r is not None:
                return Str(r)
        return Str((('opq', ('strmethod', name, l) + tuple(a)),))
    METHODS[('str', name)] = f


def py_value(I, st, r):
    if isinstance(r, float) and r != r or r in (float('inf'), float('-inf')):
        raise Unsupported('infinite constant')
    if isinstance(r, bool) or r is None:
        return Const(r)
    if isinstance(r, int):
        return N.const(r)
    if isinstance(r, float):
        return N.const(N.F(repr(r)))
    if isinstance(r, str):
        return lit(r)
    if isinstance(r, list):
        return I.new_list(st, [py_value(I, st, x) for x in r])
    if isinstance(r, tuple):
        return Tup([py_value(I, st, x) for x in r])
    raise Unsupported('python value')


from . import interp as _interp
_interp.PY_VALUE = py_value


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'ljust', 'rjust', 'center', 'zfill', 'swapcase',
           'splitlines', 'casefold', 'expandtabs', 'removeprefix', 'removesuffix'):
    lit_method(_n)


def _isx(name):
    def f(I, st, l, a, kw, node):
        if l.lit is None:
            raise Unsupported('str predicate')
        return Const(getattr(l.lit, name)())
    METHODS[('str', name)] = f


for _n in ('isdigit', 'isalpha', 'isalnum', 'isidentifier', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'istitle', 'isascii', 'isprintable'):
    _isx(_n)


@method('str', 'startswith', 'endswith')
def m_starts(I, st, l, a, kw, node):
    raise Unsupported('str prefix')


def _starts(end):
    def f(I, st, l, a, kw, node):
        def one(x):
            if isinstance(x, Tup):
                r = FALSE
                for y in x.items:
                    r = OR(r, one(y))
                return r
            if not isinstance(x, Str) or x.lit is None:
                return dd.bvar(('starts', end, l, x))
            if l.lit is not None:
                return TRUE if (l.lit.endswith(x.lit) if end else l.lit.startswith(x.lit)) else FALSE
            if not x.lit:
                return TRUE
            p = l.parts[-1] if end else l.parts[0]
            if isinstance(p, str):
                n = min(len(p), len(x.lit))
                if end:
                    if p[-n:] != x.lit[-n:]:
                        return FALSE
                    if len(x.lit) <= len(p):
                        return TRUE
                else:
                    if p[:n] != x.lit[:n]:
                        return FALSE
                    if len(x.lit) <= len(p):
                        return TRUE
            if isinstance(p, tuple) and p[0] == 'sym' and x.lit in IT.NAME_SEPARATORS:
                return FALSE
            return dd.bvar(('starts', end, l, x))
        return apply(one, a[0])
    return f


METHODS[('str', 'startswith')] = _starts(False)
METHODS[('str', 'endswith')] = _starts(True)


def str_pieces(I, l, sep, limit, right):
    """pieces of a string term around a literal separator, or None when the symbolic parts may contain it"""
    if l.lit is None:
        if sep not in IT.NAME_SEPARATORS or any(isinstance(p, tuple) and p[0] != 'sym' for p in l.parts):
            return None
    out = [[]]
    for p in l.parts:
        if isinstance(p, str):
            xs = p.split(sep)
            out[-1].append(xs[0])
            for x in xs[1:]:
                out.append([x])
        else:
            out[-1].append(p)
    if limit is not None and limit >= 0 and len(out) > limit + 1:
        def join(ps):
            r = []
            for i, x in enumerate(ps):
                if i:
                    r.append(sep)
                r.extend(x)
            return r
        if right:
            k = len(out) - limit
            out = [join(out[:k])] + out[k:]
        else:
            out = out[:limit] + [join(out[limit:])]
    return [Str(tuple(x)) for x in out]


def _split(right):
    def f(I, st, l, a, kw, node):
        if l.lit is not None:
            args = [None if x == NONE else (x.lit if isinstance(x, Str) else cint(x)) for x in a]
            if 'maxsplit' in kw:
                args = (args or [None]) + [cint(kw['maxsplit'])]
            return py_value(I, st, l.lit.rsplit(*args) if right else l.lit.split(*args))
        if not a or not isinstance(a[0], Str) or a[0].lit is None:
            return Opq('strsplit', l, tuple(a))
        limit = cint(a[1]) if len(a) > 1 else cint(kw['maxsplit']) if 'maxsplit' in kw else -1
        ps = str_pieces(I, l, a[0].lit, limit, right)
        return Opq('strsplit', l, tuple(a)) if ps is None else I.new_list(st, ps)
    return f


METHODS[('str', 'split')] = _split(False)
METHODS[('str', 'rsplit')] = _split(True)


def _partition(right):
    def f(I, st, l, a, kw, node):
        if not isinstance(a[0], Str) or a[0].lit is None:
            return Opq('strsplit', l, tuple(a))
        ps = str_pieces(I, l, a[0].lit, 1, right)
        if ps is None:
            return Opq('strsplit', l, tuple(a))
        if len(ps) == 2:
            return Tup([ps[0], a[0], ps[1]])
        return Tup([lit(''), lit(''), ps[0]]) if right else Tup([ps[0], lit(''), lit('')])
    return f


METHODS[('str', 'partition')] = _partition(False)
METHODS[('str', 'rpartition')] = _partition(True)


def _operator(op, swap):
    def f(I, st, l, a, kw, node):
        return I.binop(st, op, a[0], l, node) if swap else I.binop(st, op, l, a[0], node)
    return f


for _kind, _names in (('str', 'Mod Add Mult'), ('tuple', 'Add Mult'), ('num', 'Add Sub Mult')):
    for _name in _names.split():
        METHODS.setdefault((_kind, '__%s__' % {'Mult': 'mul'}.get(_name, _name.lower())), _operator(getattr(ast, _name)(), False))
        if _kind == 'num':
            METHODS.setdefault((_kind, '__r%s__' % {'Mult': 'mul'}.get(_name, _name.lower())), _operator(getattr(ast, _name)(), True))


@method('str', 'replace')
def m_replace(I, st, l, a, kw, node):
    if len(a) > 2 or kw:
        if l.lit is not None and all(isinstance(x, Str) and x.lit is not None for x in a[:2]):
            return Str((l.lit.replace(a[0].lit, a[1].lit, need_int(a[2] if len(a) > 2 else kw['count'])),))
        return Str((('opq', ('replace', l) + tuple(a)),))
    if isinstance(a[0], Str) and a[0].lit is not None and isinstance(a[1], Str) and a[1].lit is not None:
        if l.lit is not None or (a[0].lit in IT.NAME_SEPARATORS and all(isinstance(p, str) or p[0] == 'sym' for p in l.parts)):
            return Str(tuple(p.replace(a[0].lit, a[1].lit) if isinstance(p, str) else p for p in l.parts))
    return Str((('opq', ('replace', l) + tuple(a)),))


@method('str', 'format')
def m_format(I, st, l, a, kw, node):
    import string
    if l.lit is None:
        return Str((('opq', ('format', l) + tuple(a)),))
    out = []
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(l.lit):
        out.append(text)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Unsupported('format field')
        if conv == 'r':
            out.append(I.to_repr(st, v))
        elif spec:
            out.append(I.fmt_spec(st, v, spec))
        else:
            out.append(I.to_str(st, v))
    return I.str_cat(st, out)


def str_find(name):
    def f(I, st, l, a, kw, node):
        if l.lit is not None and isinstance(a[0], Str) and a[0].lit is not None and all(cint(x) is not None for x in a[1:]):
            try:
                return N.const(getattr(l.lit, name)(a[0].lit, *[cint(x) for x in a[1:]]))
            except ValueError as e:
                I.raise_exc(st, 'ValueError', str(e), node)
        return N.opaque(('str' + name, l) + tuple(a), 'int')
    METHODS[('str', name)] = f


for _n in ('find', 'index', 'rfind', 'rindex'):
    str_find(_n)


@method('str', 'count')
def m_scount(I, st, l, a, kw, node):
    if len(a) == 1 and isinstance(a[0], Str) and a[0].lit is not None:
        t = a[0].lit
        if l.lit is not None:
            return N.const(l.lit.count(t))
        # numbers and quoted words contain no line ends
        if t in ('\n', '\r', '\t') and all(isinstance(p, str) or p[0] in ('num', 'reprstr') for p in l.parts):
            return N.const(sum(p.count(t) for p in l.parts if isinstance(p, str)))
    return N.opaque(('strcount', l, a[0]), 'int')


@method('str', 'encode', '__len__')
def m_sencode(I, st, l, a, kw, node):
    return Opq('encode', l)


# numbers
@method('num', 'is_integer')
def m_is_integer(I, st, l, a, kw, node):
    return TRUE if N.is_int(l) else dd.sign_ite(N.sub(l, N.floor(l)), FALSE, TRUE, FALSE)


@method('num', 'conjugate', '__float__', 'item')
def m_conj(I, st, l, a, kw, node):
    return l


@method('num', '__round__')
def m_nround(I, st, l, a, kw, node):
    return b_round(I, st, [l] + a, {}, node)


# PIL ImagePath
@method('impath', 'tolist')
def m_tolist(I, st, l, a, kw, node):
    c = I.content(st, l)
    if a and cint(a[0]) == 1:
        c = apply(lambda t: Tup([v for p in t.items for v in p.items]), c)
    return I.alloc(st, 'list', None, {'_': c})


@method('impath', 'getbbox')
def m_getbbox(I, st, l, a, kw, node):
    def one(t):
        if not t.items:
            return Tup([N.ZERO] * 4)
        xs = [p.items[0] for p in t.items]
        ys = [p.items[1] for p in t.items]

        def red(f, vs):
            out = vs[0]
            for v in vs[1:]:
                out = apply(lambda p, q: f([p, q]), out, v)
            return out
        return Tup([red(N.minn, xs), red(N.minn, ys), red(N.maxn, xs), red(N.maxn, ys)])
    return apply(one, I.content(st, l))


@method('impath', 'transform', 'map', 'compact')
def m_imt(I, st, l, a, kw, node):
    raise Unsupported('ImagePath method')


@method('impath', '__len__')
def m_imlen(I, st, l, a, kw, node):
    return b_len(I, st, [l], {}, node)


@ext('PIL.ImagePath.Path')
def e_impath(I, st, a, kw, node):
    c = seq_gv(I, st, a[0], node)

    def one(s, t):
        vals = [(x, I.split(s, x, lambda s2, y: y)) for x in t.items]
        out = []
        flat = []
        for x in t.items:
            kinds = {type(l) for l in leaves(x)}
            if kinds <= {Num, Const}:
                flat.append(x)
            elif kinds == {Tup}:
                if flat:
                    I.raise_exc(s, 'ValueError', 'mixed coordinate list', node)
                bad = apply(lambda l: FALSE if len(l.items) == 2 else TRUE, x)
                I.guard_raise(s, bad, 'ValueError', 'wrong number of coordinates', node)
                x = restrict(x, s.pc)
                out.append(Tup([apply(lambda l: l.items[0], x), apply(lambda l: l.items[1], x)]))
            elif kinds == {Ref} and any(I.rec(s, l).kind == 'list' for l in leaves(x)):
                xs = I.items(s, x, node)
                if len(xs) != 2:
                    I.raise_exc(s, 'ValueError', 'wrong number of coordinates', node)
                out.append(Tup(xs))
            elif kinds & {Opq}:
                raise Unsupported('opaque coordinates')
            else:
                I.raise_exc(s, 'TypeError', 'ImagePath.Path: coordinate pairs must be tuples', node)
        if flat:
            if len(flat) % 2:
                I.raise_exc(s, 'ValueError', 'wrong number of coordinates', node)
            out = [Tup(flat[i:i + 2]) for i in range(0, len(flat), 2)]
        return I.alloc(s, 'impath', None, {'_': Tup(out)})
    return I.split(st, c, one)


# --------------------------------------------------------------------------- math
def arraylike(I, s, l):
    return isinstance(l, Tup) or isinstance(l, Ref) and I.rec(s, l).kind in ('list', 'nd')


def real_fn(name, f):
    for p in ('math.', 'numpy.'):
        EXT[p + name] = real_fn_of(p + name, f)


def real_fn_of(name, f):
    def h(I, st, a, kw, node):
        def one(s, l):
            l = numlike(l)
            if isinstance(l, Num):
                return f(l)
            if isinstance(l, Ref) and I.rec(s, l).kind == 'nd':
                return I.nd_map(s, l, lambda x: apply(f, x))
            if name.startswith('numpy.') and arraylike(I, s, l):
                if has_opaque(I, s, l):
                    return I.call_opaque(s, Ext(name), [l], {}, node)
                return I.nd_map(s, nd_from(I, s, l), lambda x: apply(f, x))
            if isinstance(l, Opq):
                return Opq('call', Ext(name), (l,), ()) if name.startswith('numpy') else N.opaque((name, l))
            I.raise_exc(s, 'TypeError', 'must be real number, not %s' % (I.class_of(s, l),), node)
        return lift(I, st, a[0], one, f)
    return h


def _sqrt(I, st, a, kw, node):
    def f(l):
        c = l.const()
        if c is not None and c < 0:
            return UNDEF
        return N.sqrt(l)

    def one(s, l):
        l = numlike(l)
        if isinstance(l, Num):
            neg = dd.sign_ite(l, TRUE, FALSE, FALSE)
            I.guard_raise(s, neg, 'ValueError', 'math domain error', node)
            return N.sqrt(l)
        if isinstance(l, Ref) and I.rec(s, l).kind == 'nd':
            return I.nd_map(s, l, lambda x: apply(N.sqrt, x))
        if isinstance(l, Opq):
            return N.opaque(('sqrt', l), 'nonneg')
        I.raise_exc(s, 'TypeError', 'must be real number', node)
    return I.split(st, a[0], one)


def _npsqrt(I, st, a, kw, node):
    if isinstance(a[0], Tup) or isinstance(a[0], Ref) and I.rec(st, a[0]).kind == 'list':
        if has_opaque(I, st, a[0]):
            return I.call_opaque(st, Ext('numpy.sqrt'), a, {}, node)
        a = [nd_from(I, st, a[0])]
    return _sqrt(I, st, a, kw, node)


EXT['math.sqrt'], EXT['numpy.sqrt'] = _sqrt, _npsqrt


def _tan(l):
    return N.tan(l)


for _n, _f in (('sin', N.sin), ('cos', N.cos), ('radians', N.radians), ('degrees', N.degrees), ('fabs', N.fabs), ('deg2rad', N.radians),
               ('rad2deg', N.degrees), ('abs', N.fabs), ('absolute', N.fabs), ('tan', N.tan),
               ('floor', N.floor), ('ceil', lambda x: N.neg(N.floor(N.neg(x)))), ('trunc', N.trunc), ('square', lambda x: N.mul(x, x)),
               ('negative', N.neg), ('float64', lambda x: x), ('isfinite', lambda x: TRUE), ('isnan', lambda x: FALSE), ('isinf', lambda x: FALSE)):
    real_fn(_n, _f)
for _n in ('exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'arctan', 'arcsin', 'arccos'):
    real_fn(_n, (lambda nm: lambda x: N.generic(nm, (x,)))(_n.replace('arc', 'a') if _n.startswith('arc') else _n))


def num_args(I, st, a, node, f):
    def go(i, acc, s):
        if i == len(a):
            return f(*acc)

        def one(s2, l):
            l = numlike(l)
            if isinstance(l, Opq):
                l = N.opaque(('num', l))
            if not isinstance(l, Num):
                I.raise_exc(s2, 'TypeError', 'must be real number, not %s' % (I.class_of(s2, l),), node)
            return go(i + 1, acc + [l], s2)
        return I.split(s, a[i], one)
    if all(isinstance(l, Num) for x in a for l in leaves(x)):
        return apply(f, *a)
    return go(0, [], st)


@ext('math.hypot')
def e_hypot(I, st, a, kw, node):
    return num_args(I, st, a, node, N.hypot)


@ext('math.dist')
def e_dist(I, st, a, kw, node):
    p, q = I.items(st, a[0], node), I.items(st, a[1], node)
    return num_args(I, st, [apply(N.sub, x, y) for x, y in zip(p, q)], node, N.hypot)


@ext('math.atan2', 'numpy.arctan2')
def e_atan2(I, st, a, kw, node):
    return num_args(I, st, a, node, N.atan2)


@ext('math.pow')
def e_pow(I, st, a, kw, node):
    return I.binop(st, ast.Pow(), a[0], a[1], node)


@ext('math.fmod')
def e_fmod(I, st, a, kw, node):
    return num_args(I, st, a, node, lambda x, y: N.sub(x, N.mul(y, N.trunc(N.div(x, y)))))


@ext('math.copysign')
def e_copysign(I, st, a, kw, node):
    return num_args(I, st, a, node, lambda x, y: dd.sign_ite(y, N.neg(N.fabs(x)), N.fabs(x), N.fabs(x)))


@ext('math.isclose')
def e_isclose(I, st, a, kw, node):
    rel = a[2] if len(a) > 2 else kw.get('rel_tol', N.const(Fraction(1, 10 ** 9)))
    tol = kw.get('abs_tol', N.ZERO)
    return apply(lambda x, y, r, t: N_close(x, y, N.mul(r, N.fabs(x)), N.mul(r, N.fabs(y)), t), a[0], a[1], rel, tol)


def N_close(x, y, *tols):
    # |x - y| <= one of the tolerances
    out = FALSE
    for t in tols:
        out = OR(out, dd.sign_ite(N.sub(N.fabs(N.sub(x, y)), t), TRUE, TRUE, FALSE))
    return out


@ext('math.prod')
def e_prod(I, st, a, kw, node):
    out = N.ONE
    for x in I.items(st, a[0], node):
        out = I.binop(st, ast.Mult(), out, x, node)
    return out


@ext('math.comb')
def e_comb(I, st, a, kw, node):
    import math
    return N.const(math.comb(need_int(a[0]), need_int(a[1])))


EXT['math.fsum'] = lambda I, st, a, kw, node: b_sum(I, st, a, kw, node)


# --------------------------------------------------------------------------- x7.lib.iters
@ext('x7.lib.iters.iter_rotate')
def e_iter_rotate(I, st, a, kw, node):
    names = ('data', 'elems', 'offset', 'cycle')
    args = dict(zip(names, a))
    args.update(kw)
    elems = need_int(args.get('elems', N.const(2)))
    offset = need_int(args.get('offset', N.ZERO))
    cyc = args.get('cycle', TRUE)
    c = seq_gv(I, st, args['data'], node)
    bad = apply(lambda t: FALSE if t.items else TRUE, c)
    I.guard_raise(st, bad, 'ZeroDivisionError', 'iter_rotate of an empty sequence', node)
    c = restrict(c, st.pc)

    def one(t, cy):
        n = len(t.items)
        off = offset % n
        end = off + n if cy.v else off + n - 1
        cols = [[t.items[(k + i) % n] for k in range(off, end)] for i in range(elems)]
        return Tup([Tup(r) for r in zip(*cols)])
    r = apply(one, c, I.truth(st, cyc))
    return I.alloc(st, 'iter', None, {'_': r, 'pos': Const(0)})


@ext('x7.lib.iters.t_range')
def e_t_range(I, st, a, kw, node):
    names = ('steps', 't_start', 't_end', 'closed', 'closed_start')
    args = dict(zip(names, a))
    args.update(kw)
    steps = args['steps']
    t0 = args.get('t_start', N.ZERO)
    t1 = args.get('t_end', N.ONE)
    closed = I.truth(st, args.get('closed', TRUE))
    cstart = I.truth(st, args.get('closed_start', TRUE))

    def one(n, a0, a1, c, cs):
        ni = cint(n)
        ln = N.sub(a1, a0)
        if ni is not None and 0 <= ni <= T_RANGE_FULL:
            ks = list(range(0 if cs.v else 1, ni + 1 if c.v else ni))
            if ni == 0 and ks:
                return UNDEF
            return Tup([N.add(N.mul(N.div(N.const(k), n), ln), a0) for k in ks])
        # representative elements of an arbitrary-length range: first, a generic inner one, last
        k = N.var('k[%s]' % (n,), 'posint')
        ks = ([N.ZERO] if cs.v else []) + [k] + ([n] if c.v else [])
        return Tup([N.add(N.mul(N.div(x, n), ln), a0) for x in ks])
    I.reps = True
    z = apply(lambda n: dd.sign_ite(n, FALSE, TRUE, FALSE), steps)
    z = AND(z, OR(closed, FALSE))
    I.guard_raise(st, AND(z, closed), 'ZeroDivisionError', 't_range with zero steps', node)
    steps = restrict(steps, st.pc)
    r = apply(one, steps, t0, t1, closed, cstart)
    return I.alloc(st, 'iter', None, {'_': r, 'pos': Const(0)})


@ext('itertools.chain.from_iterable')
def e_chain_from(I, st, a, kw, node):
    out = I.new_list(st, [])
    for p in I.items(st, a[0], node):
        I.list_extend(st, out, p)
    return I.alloc(st, 'iter', None, {'_': I.content(st, out), 'pos': Const(0)})


@ext('x7.lib.iters.xy_flatten')
def e_flatten(I, st, a, kw, node):
    out = []
    for p in I.items(st, a[0], node):
        out.extend(I.items(st, p, node))
    return I.new_iter(st, out)


@ext('x7.lib.iters.xy_iter')
def e_xy_iter(I, st, a, kw, node):
    c = seq_gv(I, st, a[0], node)
    bad = apply(lambda t: TRUE if len(t.items) % 2 else FALSE, c)
    I.guard_raise(st, bad, 'ValueError', 'Missing y value at end of iterable', node)
    c = restrict(c, st.pc)
    return I.alloc(st, 'iter', None, {'_': apply(lambda t: Tup([Tup(t.items[i:i + 2]) for i in range(0, len(t.items), 2)]), c), 'pos': Const(0)})


# --------------------------------------------------------------------------- itertools / functools / operator / copy
@ext('itertools.chain')
def e_chain(I, st, a, kw, node):
    out = I.new_list(st, [])
    for p in a:
        I.list_extend(st, out, p)
    return I.alloc(st, 'iter', None, {'_': I.content(st, out), 'pos': Const(0)})


@ext('itertools.combinations', 'itertools.permutations')
def e_comb2(I, st, a, kw, node):
    n = need_int(a[1])
    return I.new_iter(st, [Tup(x) for x in itertools.combinations(I.items(st, a[0], node), n)])


EXT['itertools.permutations'] = lambda I, st, a, kw, node: I.new_iter(
    st, [Tup(x) for x in itertools.permutations(I.items(st, a[0], node), need_int(a[1]) if len(a) > 1 else None)])


@ext('itertools.product')
def e_product(I, st, a, kw, node):
    cols = [I.items(st, x, node) for x in a]
    return I.new_iter(st, [Tup(x) for x in itertools.product(*cols, repeat=need_int(kw.get('repeat', N.ONE)))])


@ext('itertools.islice')
def e_islice(I, st, a, kw, node):
    if isinstance(a[0], Ref) and 'lazy' in I.rec(st, a[0]).f:
        args = [None if x == NONE else need_int(x) for x in a[1:]]
        start, stop = (0, args[0]) if len(args) == 1 else (args[0] or 0, args[1])
        xs = [lazy_next(I, st, a[0]) for _ in range(stop)]
        return I.new_iter(st, xs[start:])
    sl = slice(*[None if x == NONE else need_int(x) for x in a[1:]])
    c = seq_gv(I, st, a[0], node)
    return I.alloc(st, 'iter', None, {'_': apply(lambda t: Tup(t.items[sl]), c), 'pos': Const(0)})


@ext('itertools.pairwise')
def e_pairwise(I, st, a, kw, node):
    c = seq_gv(I, st, a[0], node)
    return I.alloc(st, 'iter', None, {'_': apply(lambda t: Tup([Tup(x) for x in zip(t.items, t.items[1:])]), c), 'pos': Const(0)})


@ext('itertools.accumulate')
def e_accumulate(I, st, a, kw, node):
    out = []
    for x in I.items(st, a[0], node):
        out.append(x if not out else (I.call(st, a[1], [out[-1], x], {}, node) if len(a) > 1 else I.binop(st, ast.Add(), out[-1], x, node)))
    return I.new_iter(st, out)


@ext('itertools.zip_longest')
def e_zip_longest(I, st, a, kw, node):
    cols = [I.items(st, x, node) for x in a]
    return I.new_iter(st, [Tup(x) for x in itertools.zip_longest(*cols, fillvalue=kw.get('fillvalue', NONE))])


@ext('itertools.repeat')
def e_repeat(I, st, a, kw, node):
    if len(a) > 1:
        return I.new_iter(st, [a[0]] * need_int(a[1]))
    return I.alloc(st, 'iter', None, {'lazy': Const('repeat'), 'cur': a[0]})


@ext('itertools.count')
def e_count(I, st, a, kw, node):
    return I.alloc(st, 'iter', None, {'lazy': Const('count'), 'cur': a[0] if a else N.ZERO, 'step': a[1] if len(a) > 1 else N.ONE})


@ext('itertools.cycle')
def e_cycle(I, st, a, kw, node):
    return I.alloc(st, 'iter', None, {'lazy': Const('cycle'), 'items': Tup(I.items(st, a[0], node)), 'i': Const(0)})


@ext('itertools.starmap')
def e_starmap(I, st, a, kw, node):
    return I.new_iter(st, [I.call(st, a[0], I.items(st, x, node), {}, node) for x in I.items(st, a[1], node)])


@ext('functools.reduce')
def e_reduce(I, st, a, kw, node):
    xs = I.items(st, a[1], node)
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            I.raise_exc(st, 'TypeError', 'reduce() of empty iterable', node)
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = I.call(st, a[0], [acc, x], {}, node)
    return acc


@ext('functools.partial')
def e_partial(I, st, a, kw, node):
    return apply(lambda f: Partial(f, tuple(a[1:]), tuple(sorted(kw.items()))), a[0])


@ext('functools.lru_cache', 'functools.cache')
def e_lru(I, st, a, kw, node):
    if a and isinstance(a[0], (Func, Bound)):
        return Wrap('memo', a[0])
    return Opq('call', Ext('functools.lru_cache'), (), ())


for _n, _o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div), ('mod', ast.Mod), ('floordiv', ast.FloorDiv), ('pow', ast.Pow)):
    EXT['operator.' + _n] = (lambda o: lambda I, st, a, kw, node: I.binop(st, o(), a[0], a[1], node))(_o)
for _n, _o in (('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE), ('eq', ast.Eq), ('ne', ast.NotEq)):
    EXT['operator.' + _n] = (lambda o: lambda I, st, a, kw, node: I.compare(st, o(), a[0], a[1], node))(_o)
EXT['operator.neg'] = lambda I, st, a, kw, node: apply(N.neg, a[0])


@ext('operator.attrgetter')
def e_attrgetter(I, st, a, kw, node):
    return Partial(Builtin('_attrgetter'), tuple(a), ())


@ext('operator.itemgetter')
def e_itemgetter(I, st, a, kw, node):
    return Partial(Builtin('_itemgetter'), tuple(a), ())


@ext('operator.methodcaller')
def e_methodcaller(I, st, a, kw, node):
    return Partial(Builtin('_methodcaller'), tuple(a), ())


@builtin('_attrgetter')
def b_attrgetter(I, st, a, kw, node):
    names, obj = a[:-1], a[-1]
    out = []
    for n in names:
        v = obj
        for part in n.lit.split('.'):
            v = I.getattr(st, v, part, node)
        out.append(v)
    return out[0] if len(out) == 1 else Tup(out)


@builtin('_itemgetter')
def b_itemgetter(I, st, a, kw, node):
    out = [I.getitem(st, a[-1], k, node) for k in a[:-1]]
    return out[0] if len(out) == 1 else Tup(out)


@builtin('_methodcaller')
def b_methodcaller(I, st, a, kw, node):
    return I.call_method(st, a[-1], a[0].lit, list(a[1:-1]))


@ext('collections.namedtuple')
def e_namedtuple(I, st, a, kw, node):
    names = a[1].lit.replace(',', ' ').split() if isinstance(a[1], Str) else [x.lit for x in I.items(st, a[1], node)]
    if set(kw) - {'defaults'} or any(not n or not n.isidentifier() for n in names):
        raise Unsupported('namedtuple')
    dflt = I.items(st, kw['defaults'], node) if 'defaults' in kw else []
    if any(not isinstance(d, (Num, Const, Str)) or isinstance(d, Str) and d.lit is None or isinstance(d, Num) and cint(d) is None for d in dflt):
        raise Unsupported('namedtuple defaults')
    lits = [''] * (len(names) - len(dflt)) + [' = %r' % (d.lit if isinstance(d, Str) else cint(d) if isinstance(d, Num) else d.v) for d in dflt]
    tree = ast.parse('class %s(__sva_std_named_tuple):\n%s' % (a[0].lit, '\n'.join('    %s: object%s' % p for p in zip(names, lits)) or '    pass'))
    for x in ast.walk(tree):
        if hasattr(x, 'lineno'):
            x.lineno = x.end_lineno = getattr(node, 'lineno', 1)
    return I.make_class(st, tree.body[0])


@ext('collections.defaultdict')
def e_defaultdict(I, st, a, kw, node):
    ref = b_dict(I, st, a[1:], kw, node)
    I.write(st, ref.oid, 'factory', a[0] if a else NONE)
    return ref


@ext('collections.deque')
def e_deque(I, st, a, kw, node):
    if len(a) > 1 or kw:
        raise Unsupported('bounded deque')
    return b_list(I, st, a[:1], {}, node)


@ext('copy.copy')
def e_copy(I, st, a, kw, node):
    def one(s, l):
        if isinstance(l, Ref):
            r = I.rec(s, l)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(s, r.cls, '__copy__'):
                return I.call_method(s, l, '__copy__', [])
            if r.kind == 'nd':
                return nd_new(I, s, I.nd_content(s, l))
            return I.alloc(s, r.kind, r.cls, dict(r.f))
        return l
    return I.split(st, a[0], one)


@ext('copy.deepcopy')
def e_deepcopy(I, st, a, kw, node):
    memo = {}

    def deep(gv):
        return apply(leaf, gv)

    def leaf(l):
        if isinstance(l, Ref):
            if l.oid in memo:
                return memo[l.oid]
            r = st.heap[l.oid]
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and I.cls_lookup(st, r.cls, '__deepcopy__'):
                raise Unsupported('__deepcopy__')
            if r.kind == 'nd':
                memo[l.oid] = nd_new(I, st, I.nd_content(st, l))
                return memo[l.oid]
            n = I.alloc(st, r.kind, r.cls, {})
            memo[l.oid] = n
            for k, v in r.f.items():
                st.heap[n.oid] = st.heap[n.oid].put(k, deep(v))
            return n
        if isinstance(l, Tup):
            return Tup([deep(x) for x in l.items])
        if isinstance(l, Map):
            return Map([(leaf(k), deep(v)) for k, v in l.items])
        return l
    return deep(a[0])


EXT['typing.cast'] = lambda I, st, a, kw, node: a[1]
EXT['typing.TypeVar'] = lambda I, st, a, kw, node: Ext('typing.expr')
EXT['typing.NewType'] = lambda I, st, a, kw, node: Builtin('_identity')
BUILTINS['_identity'] = lambda I, st, a, kw, node: a[0]
EXT['warnings.warn'] = b_noop
EXT['sys.exit'] = b_exit


@ext('bisect.bisect', 'bisect.bisect_right', 'bisect.bisect_left')
def e_bisect(I, st, a, kw, node):
    raise Unsupported('bisect')


def _bisect(left):
    def f(I, st, a, kw, node):
        def one(s, t):
            out = N.ZERO
            for x in t.items:
                c = I.truth(s, I.order(s, ast.Lt() if left else ast.LtE(), x, a[1], node))
                out = apply(N.add, out, ite(c, N.ONE, N.ZERO))
            return out
        return I.split(st, seq_gv(I, st, a[0], node), one)
    return f


EXT['bisect.bisect'] = EXT['bisect.bisect_right'] = _bisect(False)
EXT['bisect.bisect_left'] = _bisect(True)


# --------------------------------------------------------------------------- numpy
def nd_new(I, st, nd):
    return I.alloc(st, 'nd', None, {'_': nd})


def nd_content(self, st, ref):
    r = st.heap[ref.oid]
    if 'base' in r.f:
        base = self.nd_content(st, r.f['base'])
        return Nd(r.f['shape'].v, [base.items[i] for i in r.f['idx'].v])
    c = r.f['_']
    if not isinstance(c, Ite):
        return c
    ls = leaves(c)
    if any(l.shape != ls[0].shape for l in ls):
        raise Unsupported('arrays of different shape')
    return Nd(ls[0].shape, [apply(lambda t, i=i: t.items[i], c) for i in range(len(ls[0].items))])


def nd_base(self, st, ref):
    r = st.heap[ref.oid]
    if 'base' in r.f:
        b, idx = self.nd_base(st, r.f['base'])
        return b, [idx[i] for i in r.f['idx'].v]
    return ref, list(range(len(self.nd_content(st, ref).items)))


def nd_view(I, st, ref, shape, idx):
    return I.alloc(st, 'nd', None, {'base': ref, 'idx': Const(tuple(idx)), 'shape': Const(tuple(shape))})


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def nd_rows(self, st, ref):
    c = self.nd_content(st, ref)
    if not c.shape:
        self.raise_exc(st, 'TypeError', 'iteration over a 0-d array')
    n = c.shape[0]
    if len(c.shape) == 1:
        return list(c.items)
    w = size(c.shape[1:])
    return [nd_view(self, st, ref, c.shape[1:], range(i * w, (i + 1) * w)) for i in range(n)]


def nd_take(I, st, shape, idx, keys, node):
    if not keys:
        return shape, idx
    k, rest = keys[0], keys[1:]
    if k == NONE:
        s, i = nd_take(I, st, shape, idx, rest, node)
        return (1,) + tuple(s), i
    if k == dd.ELLIPSIS:
        n = len(shape) - len([x for x in rest if x != NONE])
        full = [Slice(NONE, NONE, NONE)] * n
        return nd_take(I, st, shape, idx, full + list(rest), node)
    if not shape:
        I.raise_exc(st, 'IndexError', 'too many indices for array', node)
    n, w = shape[0], size(shape[1:])
    blocks = [idx[j * w:(j + 1) * w] for j in range(n)]
    if isinstance(k, Slice):
        sl = I.py_slice(k)
        if sl is None:
            raise Unsupported('symbolic slice')
        sel = blocks[sl]
        sub = [nd_take(I, st, shape[1:], b, rest, node) for b in sel]
        s = sub[0][0] if sub else shape[1:]
        return (len(sel),) + tuple(s), [i for _, b in sub for i in b]
    i = cint(k)
    if i is None:
        raise Unsupported('array index %s' % (k,))
    if not -n <= i < n:
        I.raise_exc(st, 'IndexError', 'index out of bounds', node)
    return nd_take(I, st, shape[1:], blocks[i], rest, node)


def mask_of(I, st, m):
    """the conditions of an array of truth values, None if it is not one"""
    if not m.items or not all(leaf in (TRUE, FALSE) for x in m.items for leaf in leaves(x)):
        return None
    return [I.truth(st, x) for x in m.items]


def nd_key(I, st, k):
    """an array used as an index; truth values stay what they are"""
    seq = list(k.items) if isinstance(k, Tup) else I.items(st, k) if I.rec(st, k).kind == 'list' else None
    if seq and all(x in (TRUE, FALSE) for x in seq):
        return Nd((len(seq),), seq)
    return to_nd(I, st, k)


def nd_fancy(I, st, shape, keys, node):
    """numpy's advanced indexing with known indices: shape of the result, places in the array"""
    if any(k == NONE for k in keys):
        raise Unsupported('fancy index with a new axis')
    spec = []           # (kind, selection) per dimension: 'adv' (shape, indices) or 'slice' [indices]
    wide = [k for k in keys if k != dd.ELLIPSIS]
    arrays = {id(k): nd_key(I, st, k) for k in wide if isinstance(k, (Ref, Tup))}
    masks = {i: mask_of(I, st, m) for i, m in arrays.items() if m is not None}

    def dims(k):
        return len(arrays[id(k)].shape) if masks.get(id(k)) is not None else 1
    used = sum(dims(k) for k in wide)
    if used > len(shape):
        I.raise_exc(st, 'IndexError', 'too many indices for array', node)
    if len(wide) == len(keys):
        keys = list(keys) + [dd.ELLIPSIS]

    def place(x, n):
        i = cint(x)
        if i is None:
            raise Unsupported('fancy index')
        if not -n <= i < n:
            I.raise_exc(st, 'IndexError', 'index out of bounds', node)
        return i % n
    for k in keys:
        at = len(spec)
        if k == dd.ELLIPSIS:
            spec += [('slice', list(range(n))) for n in shape[at:at + len(shape) - used]]
        elif isinstance(k, Slice):
            sl = I.py_slice(k)
            if sl is None:
                raise Unsupported('symbolic slice')
            spec.append(('slice', list(range(shape[at]))[sl]))
        elif isinstance(k, (Ref, Tup)):
            m = arrays[id(k)]
            if m is None:
                raise Unsupported('fancy index')
            pick = masks[id(k)]
            if pick is None:
                spec.append(('adv', (tuple(m.shape), [place(x, shape[at]) for x in m.items])))
                continue
            if any(p not in (TRUE, FALSE) for p in pick):
                raise Unsupported('selection by a symbolic mask')
            if tuple(m.shape) != tuple(shape[at:at + len(m.shape)]):
                I.raise_exc(st, 'IndexError', 'boolean index did not match indexed array', node)
            hits = [pos for pos, p in zip(itertools.product(*(range(n) for n in m.shape)), pick) if p == TRUE]
            spec += [('adv', ((len(hits),), [h[d] for h in hits])) for d in range(len(m.shape))]
        else:
            spec.append(('adv', ((), [place(k, shape[at])])))
    common = ()
    for kind, sel in spec:
        if kind == 'adv':
            common = bshape(common, sel[0])
            if common is None:
                I.raise_exc(st, 'IndexError', 'shape mismatch: indexing arrays could not be broadcast together', node)
    spec = [(kind, sel if kind == 'slice' else broadcast(Nd(*sel), common).items) for kind, sel in spec]
    advs = [d for d, (kind, _) in enumerate(spec) if kind == 'adv']
    first = advs[0] if advs == list(range(advs[0], advs[-1] + 1)) else 0
    slices = [d for d, (kind, _) in enumerate(spec) if kind == 'slice']
    before = [d for d in slices if d < first]
    after = [d for d in slices if d >= first]
    out_shape = tuple(len(spec[d][1]) for d in before) + tuple(common) + tuple(len(spec[d][1]) for d in after)
    idx = []
    for pos in itertools.product(*(range(n) for n in out_shape)):
        b, mid, a = pos[:len(before)], pos[len(before):len(before) + len(common)], pos[len(before) + len(common):]
        j = 0
        for x, n in zip(mid, common):
            j = j * n + x
        where = {d: spec[d][1][x] for d, x in zip(before + after, b + a)}
        where.update({d: spec[d][1][j] for d in advs})
        k = 0
        for d, n in enumerate(shape):
            k = k * n + where[d]
        idx.append(k)
    return out_shape, idx


def nd_get(self, st, ref, k, node):
    c = self.nd_content(st, ref)
    keys = list(k.items) if isinstance(k, Tup) else [k]
    if any(isinstance(x, Ite) for x in keys):
        raise Unsupported('gated array index')
    if any(isinstance(x, (Ref, Tup)) for x in keys):
        if len(keys) == 1 and isinstance(keys[0], Ref) and self.rec(st, keys[0]).kind == 'list' \
                and not any(isinstance(x, (Ref, Tup)) or x in (TRUE, FALSE) for x in self.items(st, keys[0])):
            rows = self.nd_rows(st, ref)
            out = []
            for x in self.items(st, keys[0]):
                out.append(rows[need_int(x)])
            return nd_from(self, st, self.new_list(st, out))
        if len(keys) > 1:
            shape, idx = nd_fancy(self, st, c.shape, keys, node)
            return nd_new(self, st, Nd(shape, [c.items[i] for i in idx])) if shape else c.items[idx[0]]
        m = nd_key(self, st, keys[0])
        if m is None:
            raise Unsupported('fancy index')
        pick = mask_of(self, st, m)
        if pick is not None:
            if any(p not in (TRUE, FALSE) for p in pick):
                raise Unsupported('selection by a symbolic mask')
            if m.shape != c.shape[:len(m.shape)]:
                self.raise_exc(st, 'IndexError', 'boolean index did not match indexed array', node)
            w = size(c.shape[len(m.shape):])
            at = [j for j, p in enumerate(pick) if p == TRUE]
        else:
            w = size(c.shape[1:])
            at = []
            for x in m.items:
                j = need_int(x)
                if not -c.shape[0] <= j < c.shape[0]:
                    self.raise_exc(st, 'IndexError', 'index out of bounds', node)
                at.append(j % c.shape[0])
        items = [v for j in at for v in c.items[j * w:(j + 1) * w]]
        if pick is not None:
            return nd_new(self, st, Nd((len(at),) + tuple(c.shape[len(m.shape):]), items))
        return nd_new(self, st, Nd(tuple(m.shape) + tuple(c.shape[1:]), items))
    shape, idx = nd_take(self, st, c.shape, list(range(len(c.items))), keys, node)
    if shape == ():
        return c.items[idx[0]]
    return nd_view(self, st, ref, shape, idx)


def nd_set(self, st, ref, k, v, node):
    c = self.nd_content(st, ref)
    keys = list(k.items) if isinstance(k, Tup) else [k]
    if len(keys) == 1 and isinstance(k, Ref):
        m = nd_key(self, st, k)
        pick = mask_of(self, st, m) if m is not None else None
        if pick is not None and m.shape == c.shape and to_nd(self, st, v) is None:
            nd_store(self, st, ref, {j: dd.ite(p, v, c.items[j]) for j, p in enumerate(pick) if p != FALSE})
            return
    if any(isinstance(x, Ite) for x in keys):
        raise Unsupported('fancy assignment')
    if any(isinstance(x, (Ref, Tup)) for x in keys):
        shape, idx = nd_fancy(self, st, c.shape, keys, node)
    else:
        shape, idx = nd_take(self, st, c.shape, list(range(len(c.items))), keys, node)
    if shape == ():
        vals = [v]
    else:
        src = to_nd(self, st, v)
        if src is None:
            vals = [v] * len(idx)
        else:
            vals = broadcast(src, shape).items
    nd_store(self, st, ref, dict(zip(idx, vals)))


def nd_store(I, st, ref, upd):
    base, m = I.nd_base(st, ref)
    c = I.nd_content(st, base)
    items = list(c.items)
    for i, v in upd.items():
        items[m[i]] = v
    I.write(st, base.oid, '_', Nd(c.shape, items))


def nd_write_all(self, st, ref, res):
    c = self.nd_content(st, ref)
    src = to_nd(self, st, res)
    vals = [res] * len(c.items) if src is None else broadcast(src, c.shape).items
    nd_store(self, st, ref, dict(enumerate(vals)))


def to_nd(I, st, v):
    """Nd content of an array-like, None for a scalar"""
    if isinstance(v, Ref):
        r = I.rec(st, v)
        if r.kind == 'nd':
            return I.nd_content(st, v)
        if r.kind in ('list', 'iter', 'gen', 'impath'):
            return nd_rows_to(I, st, I.items(st, v))
        if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
            if I.cls_lookup(st, r.cls, '__array__'):
                return to_nd(I, st, I.call_method(st, v, '__array__', []))
            if I.cls_lookup(st, r.cls, '__getitem__') and I.cls_lookup(st, r.cls, '__len__'):
                return nd_rows_to(I, st, I.items(st, v))
            raise Unsupported('array of objects')
    if isinstance(v, Tup):
        return nd_rows_to(I, st, v.items)
    if isinstance(v, Ite):
        ls = leaves(v)
        if all(isinstance(l, (Num, Const)) for l in ls):
            return None
        xs = [to_nd(I, st, l) for l in ls]
        if any(x is None or x.shape != xs[0].shape for x in xs):
            raise Unsupported('arrays of different shape')
        d = dict(zip(ls, xs))
        return Nd(xs[0].shape, [apply(lambda l, i=i: d[l].items[i], v) for i in range(len(xs[0].items))])
    if isinstance(v, (Opq, Ext)):
        raise Unsupported('opaque array')
    return None


def nd_rows_to(I, st, items):
    rows = [to_nd(I, st, x) for x in items]
    if all(r is None for r in rows):
        return Nd((len(items),), [apply(numlike, x) for x in items])
    if any(r is None or r.shape != rows[0].shape for r in rows):
        I.raise_exc(st, 'ValueError', 'setting an array element with a sequence: inhomogeneous shape')
    return Nd((len(items),) + rows[0].shape, [v for r in rows for v in r.items])


def nd_from(I, st, v):
    nd = to_nd(I, st, v)
    if nd is None:
        nd = Nd((), [v])
    return nd_new(I, st, nd)


def broadcast(nd, shape):
    shape = tuple(shape)
    if nd.shape == shape:
        return nd
    pad = (1,) * (len(shape) - len(nd.shape)) + nd.shape
    out = []
    for pos in itertools.product(*(range(s) for s in shape)):
        k = 0
        for p, s in zip(pos, pad):
            k = k * s + (p if s != 1 else 0)
        out.append(nd.items[k])
    return Nd(shape, out)


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


def nd_pair(I, st, a, b, f, node):
    def one(s, x, y):
        p, q = to_nd(I, s, x), to_nd(I, s, y)
        p = Nd((), [x]) if p is None else p
        q = Nd((), [y]) if q is None else q
        shape = bshape(p.shape, q.shape)
        if shape is None:
            I.raise_exc(s, 'ValueError', 'operands could not be broadcast together', node)
        p, q = broadcast(p, shape), broadcast(q, shape)
        items = [f(s, u, v) for u, v in zip(p.items, q.items)]
        if not shape:
            return items[0]
        return nd_new(I, s, Nd(shape, items))
    return I.split(st, a, lambda s, x: I.split(s, b, lambda s2, y: one(s2, x, y)))


def nd_binop(self, st, op, a, b, node):
    return nd_pair(self, st, a, b, lambda s, u, v: self.binop(s, op, u, v, node), node)


def nd_compare(self, st, op, a, b, node):
    for x in (a, b):
        if x == NONE:
            return FALSE if isinstance(op, ast.Eq) else TRUE
    return nd_pair(self, st, a, b, lambda s, u, v: self.compare(s, op, u, v, node), node)


def nd_map(self, st, ref, f):
    c = self.nd_content(st, ref)
    return nd_new(self, st, Nd(c.shape, [f(x) for x in c.items]))


ND_METHODS = {'copy', 'dot', 'tolist', 'transpose', 'reshape', 'flatten', 'ravel', 'sum', 'min', 'max', 'mean', 'astype', 'round', 'all', 'any',
              'fill', 'item', 'view', 'prod', 'diagonal', 'clip', 'conj', 'squeeze', 'setflags', '__copy__', '__array__', 'tobytes'}


def nd_attr(self, st, ref, name, node):
    if name == 'T':
        return transpose(self, st, ref)
    if name in ('shape', 'ndim', 'size'):
        c = self.nd_content(st, ref)
        return {'shape': lambda: Tup([N.const(x) for x in c.shape]), 'ndim': lambda: N.const(len(c.shape)),
                'size': lambda: N.const(len(c.items))}[name]()
    if name == 'dtype':
        return Opq('dtype')
    if name == 'flags':
        return Opq('ndflags', ref)
    if name == '__class__':
        return self.class_of(st, ref)
    if name in ND_METHODS:
        return BMeth(name, ref)
    if name == 'flat':
        return self.new_iter(st, self.nd_content(st, ref).items)
    raise Unsupported('ndarray.%s' % name)


def transpose(I, st, ref):
    c = I.nd_content(st, ref)
    if len(c.shape) < 2:
        return nd_view(I, st, ref, c.shape, range(len(c.items)))
    if len(c.shape) != 2:
        raise Unsupported('transpose of a 3-d array')
    n, m = c.shape
    return nd_view(I, st, ref, (m, n), [i * m + j for j in range(m) for i in range(n)])


for _f in (nd_content, nd_base, nd_rows, nd_get, nd_set, nd_write_all, nd_binop, nd_compare, nd_map, nd_attr):
    setattr(Interp, _f.__name__, _f)


@method('nd', 'copy', '__copy__', 'conj', '__array__')
def m_ndcopy(I, st, l, a, kw, node):
    return nd_new(I, st, I.nd_content(st, l))


def dtype_kind(v):
    """'int', 'float', 'bool' or None for a dtype argument"""
    if isinstance(v, Builtin):
        return v.k[0] if v.k[0] in ('int', 'float', 'bool') else None
    if isinstance(v, Ext):
        n = v.k[0].split('.')[-1].rstrip('_0123456789')
    elif isinstance(v, Str) and v.lit is not None:
        n = {'i': 'int', 'f': 'float', 'd': 'float', 'b': 'bool', '?': 'bool'}.get(v.lit, v.lit.rstrip('0123456789'))
    else:
        return None
    return {'intp': 'int', 'integer': 'int', 'double': 'float', 'single': 'float', 'floating': 'float'}.get(n, n if n in ('int', 'float', 'bool') else None)


def cast(I, st, nd, dtype, node=None):
    """content converted to a dtype (None: as it is)"""
    if dtype is None or dtype == NONE:
        return nd
    k = dtype_kind(dtype)
    if k == 'int':
        return Nd(nd.shape, [apply(lambda x: N.trunc(numlike(x)) if isinstance(numlike(x), Num) else x, v) for v in nd.items])
    if k == 'bool':
        return Nd(nd.shape, [I.truth(st, v) for v in nd.items])
    if k == 'float':
        return Nd(nd.shape, [apply(numlike, v) for v in nd.items])
    return nd


@method('nd', 'astype')
def m_astype(I, st, l, a, kw, node):
    return nd_new(I, st, cast(I, st, I.nd_content(st, l), a[0] if a else kw.get('dtype'), node))


@method('nd', 'view', 'setflags')
def m_ndview(I, st, l, a, kw, node):
    c = I.nd_content(st, l)
    return nd_view(I, st, l, c.shape, range(len(c.items)))


METHODS[('nd', 'setflags')] = lambda I, st, l, a, kw, node: NONE


@method('nd', 'tobytes')
def m_tobytes(I, st, l, a, kw, node):
    return I.nd_content(st, l)


@method('nd', 'tolist')
def m_ndtolist(I, st, l, a, kw, node):
    c = I.nd_content(st, l)

    def go(shape, items):
        if not shape:
            return items[0]
        w = size(shape[1:])
        return I.new_list(st, [go(shape[1:], items[i * w:(i + 1) * w]) for i in range(shape[0])])
    return go(c.shape, list(c.items))


@method('nd', 'transpose')
def m_ndtr(I, st, l, a, kw, node):
    return transpose(I, st, l)


@method('nd', 'flatten', 'ravel')
def m_flatten(I, st, l, a, kw, node):
    c = I.nd_content(st, l)
    return nd_new(I, st, Nd((len(c.items),), c.items))


METHODS[('nd', 'ravel')] = lambda I, st, l, a, kw, node: nd_view(
    I, st, l, (len(I.nd_content(st, l).items),), range(len(I.nd_content(st, l).items)))


@method('nd', 'reshape')
def m_reshape(I, st, l, a, kw, node):
    dims = a[0].items if isinstance(a[0], Tup) else a
    dims = [need_int(x) for x in dims]
    c = I.nd_content(st, l)
    n = len(c.items)
    if -1 in dims:
        k = 1
        for d in dims:
            if d != -1:
                k *= d
        dims[dims.index(-1)] = n // k if k else 0
    if size(dims) != n:
        I.raise_exc(st, 'ValueError', 'cannot reshape array', node)
    return nd_view(I, st, l, dims, range(n))


@method('nd', 'squeeze')
def m_squeeze(I, st, l, a, kw, node):
    c = I.nd_content(st, l)
    return nd_view(I, st, l, [s for s in c.shape if s != 1], range(len(c.items)))


@method('nd', 'dot')
def m_dot(I, st, l, a, kw, node):
    return e_dot(I, st, [l, a[0]], kw, node)


@method('nd', 'round')
def m_ndround(I, st, l, a, kw, node):
    return b_round(I, st, [l] + a, kw, node)


@method('nd', 'item')
def m_item(I, st, l, a, kw, node):
    c = I.nd_content(st, l)
    if len(c.items) == 1:
        return c.items[0]
    if a and len(a) == 1 and cint(a[0]) is not None:
        return c.items[cint(a[0])]
    return nd_get(I, st, l, Tup(a), node)


METHODS[('nd', 'clip')] = lambda I, st, l, a, kw, node: EXT['numpy.clip'](I, st, [l] + a, kw, node)


@method('nd', 'fill')
def m_fill(I, st, l, a, kw, node):
    I.nd_write_all(st, l, a[0])
    return NONE


def reduction(name, f):
    def h(I, st, l, a, kw, node):
        axis = kw.get('axis', a[0] if a else NONE)
        c = I.nd_content(st, l)
        if axis == NONE:
            return f(I, st, list(c.items), node)
        ax = need_int(axis)
        if len(c.shape) != 2:
            if len(c.shape) == 1 and ax in (0, -1):
                return f(I, st, list(c.items), node)
            raise Unsupported('reduction axis')
        n, m = c.shape
        ax %= 2
        cols = [[c.items[i * m + j] for i in range(n)] for j in range(m)] if ax == 0 else [list(c.items[i * m:(i + 1) * m]) for i in range(n)]
        return nd_new(I, st, Nd((len(cols),), [f(I, st, col, node) for col in cols]))
    METHODS[('nd', name)] = h

    def e(I, st, a, kw, node):
        def one(s, x):
            if isinstance(x, Opq):
                return I.call_opaque(s, Ext('numpy.' + name), [x] + list(a[1:]), kw, node)
            return h(I, s, nd_from(I, s, x), list(a[1:]), kw, node)
        return I.split(st, a[0], one)
    EXT['numpy.' + name] = e
    EXT['numpy.a' + name] = e


def _fold(f):
    def g(I, st, xs, node):
        out = xs[0]
        for x in xs[1:]:
            out = f(I, st, out, x, node)
        return out
    return g


reduction('prod', _fold(lambda I, st, x, y, node: I.binop(st, ast.Mult(), x, y, node)))
reduction('sum', lambda I, st, xs, node: b_sum(I, st, [Tup(xs)], {}, node))
reduction('min', lambda I, st, xs, node: BUILTINS['min'](I, st, [Tup(xs)], {}, node))
reduction('max', lambda I, st, xs, node: BUILTINS['max'](I, st, [Tup(xs)], {}, node))
reduction('mean', lambda I, st, xs, node: I.binop(st, ast.Div(), b_sum(I, st, [Tup(xs)], {}, node), N.const(len(xs)), node))
reduction('all', lambda I, st, xs, node: BUILTINS['all'](I, st, [Tup(xs)], {}, node))
reduction('any', lambda I, st, xs, node: BUILTINS['any'](I, st, [Tup(xs)], {}, node))
METHODS[('nd', 'reshape_')] = None
del METHODS[('nd', 'reshape_')]


def num_lt(x, y):
    return dd.sign_ite(N.sub(x, y), TRUE, FALSE, FALSE)


def opaque_ok(name):
    """decorator: fall back to an opaque pure result when an argument is an opaque value"""
    def deco(f):
        def h(I, st, a, kw, node):
            vals = list(a) + list(kw.values())
            if any(has_opaque(I, st, v) for v in vals):
                return I.call_opaque(st, Ext(name), a, kw, node)
            return f(I, st, a, kw, node)
        EXT[name] = h
        return h
    return deco


def has_opaque(I, st, v, depth=3):
    for l in leaves(v):
        if isinstance(l, Opq) and l.k[0] != 'dtype':
            return True
        if depth and isinstance(l, Tup) and any(has_opaque(I, st, x, depth - 1) for x in l.items):
            return True
        if depth and isinstance(l, Ref):
            r = st.heap.get(l.oid)
            if r is not None and r.kind == 'list':
                for t in leaves(r.f['_']):
                    if any(has_opaque(I, st, x, depth - 1) for x in t.items):
                        return True
    return False


def np_array(copy):
    def f(I, st, a, kw, node):
        dt = a[1] if len(a) > 1 else kw.get('dtype')
        if not a and 'object' in kw:
            a = [kw['object']]

        def one(s, l):
            if isinstance(l, Opq):
                return I.call_opaque(s, Ext('numpy.array'), [l], {}, node)
            if isinstance(l, Ref) and I.rec(s, l).kind == 'nd':
                c = kw.get('copy')
                if (not copy and c != TRUE or copy and c == FALSE) and dtype_kind(dt) in (None, 'float'):
                    return l
            r = nd_from(I, s, l)
            return r if dt is None else nd_new(I, s, cast(I, s, I.nd_content(s, r), dt, node))
        if isinstance(a[0], Ref) and has_opaque(I, st, a[0]):
            return I.call_opaque(st, Ext('numpy.array'), a, {}, node)
        return I.split(st, a[0], one)
    return f


EXT['numpy.array'] = EXT['numpy.copy'] = EXT['numpy.ascontiguousarray_'] = np_array(True)
EXT['numpy.asarray'] = EXT['numpy.asanyarray'] = EXT['numpy.ascontiguousarray'] = np_array(False)


@ext('numpy.identity', 'numpy.eye')
def e_identity(I, st, a, kw, node):
    n = need_int(a[0])
    m = kw.get('M', a[1] if len(a) > 1 else NONE)
    m = n if m == NONE else need_int(m)
    k = need_int(kw.get('k', a[2] if len(a) > 2 else N.ZERO))
    return nd_new(I, st, Nd((n, m), [N.ONE if i + k == j else N.ZERO for i in range(n) for j in range(m)]))


def np_full(val):
    def f(I, st, a, kw, node):
        sh = a[0] if a else kw['shape']
        if isinstance(sh, (Opq, Ite)):
            return I.alloc(st, 'obj', None, {'opq': I.call_opaque(st, Ext('numpy.zeros'), [sh], {}, node)}) if False else \
                I.call_opaque(st, Ext('numpy.zeros'), [sh], {}, node)
        v = val if val is not None else a[1]
        try:
            dims = [need_int(x) for x in sh.items] if isinstance(sh, Tup) else [need_int(sh)]
        except Unsupported:
            return I.call_opaque(st, Ext('numpy.zeros'), [sh], {}, node)
        return nd_new(I, st, Nd(dims, [v] * size(dims)))
    return f


EXT['numpy.zeros'] = np_full(N.ZERO)
EXT['numpy.empty'] = np_full(N.opaque('uninitialised'))
EXT['numpy.ones'] = np_full(N.ONE)
EXT['numpy.full'] = np_full(None)


def np_like(name, val):
    @opaque_ok('numpy.' + name)
    def f(I, st, a, kw, node):
        v = val if val is not None else kw['fill_value'] if 'fill_value' in kw else a[1]
        c = to_nd(I, st, a[0])
        return v if c is None else nd_new(I, st, Nd(c.shape, [v] * len(c.items)))


for _n, _v in (('zeros_like', N.ZERO), ('ones_like', N.ONE), ('empty_like', N.opaque('uninitialised')), ('full_like', None)):
    np_like(_n, _v)


def ndot(I, st, p, q, node):
    if not p.shape or not q.shape:
        raise Unsupported('scalar dot')
    if len(p.shape) > 2 or len(q.shape) > 2:
        raise Unsupported('dot of 3-d arrays')
    n, k = (1, p.shape[0]) if len(p.shape) == 1 else p.shape
    k2, m = (q.shape[0], 1) if len(q.shape) == 1 else q.shape
    if k != k2:
        I.raise_exc(st, 'ValueError', 'shapes not aligned', node)
    out = []
    for i in range(n):
        for j in range(m):
            acc = N.ZERO
            for x in range(k):
                acc = apply(lambda s, u, v: N.add(s, N.mul(u, v)), acc, p.items[i * k + x], q.items[x * m + j])
            out.append(acc)
    shape = (() if len(p.shape) == 1 else (n,)) + (() if len(q.shape) == 1 else (m,))
    return Nd(shape, out)


@opaque_ok('numpy.dot')
def e_dot(I, st, a, kw, node):
    def one(s, x, y):
        p, q = to_nd(I, s, x), to_nd(I, s, y)
        if p is None or q is None:
            return I.binop(s, ast.Mult(), x, y, node)
        r = ndot(I, s, p, q, node)
        if r.shape == ():
            return r.items[0]
        return to_out(I, s, nd_new(I, s, r), a, kw, 2)
    return I.split(st, a[0], lambda s, x: I.split(s, a[1], lambda s2, y: one(s2, x, y)))


EXT['numpy.matmul'] = EXT['numpy.dot']


@ext('numpy.linalg.multi_dot')
def e_multidot(I, st, a, kw, node):
    xs = I.items(st, a[0], node)
    out = xs[0]
    for x in xs[1:]:
        out = e_dot(I, st, [out, x], {}, node)
    return out


def det(items, n):
    if n == 1:
        return items[0]
    out = N.ZERO
    for j in range(n):
        minor = [items[r * n + c] for r in range(1, n) for c in range(n) if c != j]
        t = N.mul(items[j], det(minor, n - 1))
        out = N.add(out, t) if j % 2 == 0 else N.sub(out, t)
    return out


@ext('numpy.linalg.det')
def e_det(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    return apply(lambda *xs: det(xs, c.shape[0]), *c.items)


@ext('numpy.linalg.inv')
def e_inv(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    if c is None or len(c.shape) != 2 or c.shape[0] != c.shape[1] or c.shape[0] > 3:
        raise Unsupported('inv')
    n = c.shape[0]
    d = apply(lambda *xs: det(xs, n), *c.items)
    sing = apply(lambda x: dd.sign_ite(x, FALSE, TRUE, FALSE), d)
    I.guard_raise(st, sing, 'numpy.linalg.LinAlgError', 'Singular matrix', node)
    d = restrict(d, st.pc)
    out = []
    for i in range(n):
        for j in range(n):
            def cof(dv, *xs, i=i, j=j):
                if not dv.n:
                    return N.ZERO
                minor = [xs[r * n + k] for r in range(n) for k in range(n) if r != j and k != i]
                m = det(minor, n - 1) if minor else N.ONE
                return N.div(m if (i + j) % 2 == 0 else N.neg(m), dv)
            out.append(apply(cof, d, *c.items))
    return nd_new(I, st, Nd(c.shape, out))


def to_out(I, st, r, a, kw, n):
    """the result, stored in the array given as out="""
    out = kw.get('out', a[n] if len(a) > n else NONE)
    if out == NONE:
        return r
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    I.nd_write_all(st, out, r)
    return out


def np_elem(name, op):
    @opaque_ok('numpy.' + name)
    def f(I, st, a, kw, node):
        if 'where' in kw:
            raise Unsupported('where=')
        return to_out(I, st, nd_pair(I, st, a[0], a[1], lambda s, u, v: I.binop(s, op(), u, v, node), node), a, kw, 2)


for _n, _o in (('add', ast.Add), ('subtract', ast.Sub), ('multiply', ast.Mult), ('divide', ast.Div), ('mod', ast.Mod), ('true_divide', ast.Div),
               ('power', ast.Pow), ('floor_divide', ast.FloorDiv), ('remainder', ast.Mod)):
    np_elem(_n, _o)


def np_elem2(name, f):
    @opaque_ok('numpy.' + name)
    def g(I, st, a, kw, node):
        return to_out(I, st, nd_pair(I, st, a[0], a[1], lambda s, u, v: apply(f, u, v), node), a, kw, 2)


np_elem2('hypot', N.hypot)
np_elem2('maximum', lambda x, y: N.maxn([x, y]))
np_elem2('minimum', lambda x, y: N.minn([x, y]))


@opaque_ok('numpy.array_equal')
def e_array_equal(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    if p is None or q is None:
        return I.eq(st, a[0], a[1])
    if p.shape != q.shape:
        return FALSE
    r = TRUE
    for x, y in zip(p.items, q.items):
        r = AND(r, I.eq(st, x, y))
    return r


@opaque_ok('numpy.allclose')
def e_allclose(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    p = Nd((1,), [a[0]]) if p is None and all(isinstance(x, Num) for x in leaves(a[0])) else p
    q = Nd((1,), [a[1]]) if q is None and all(isinstance(x, Num) for x in leaves(a[1])) else q
    rtol = a[2] if len(a) > 2 else kw.get('rtol', N.const(Fraction(1, 10 ** 5)))
    atol = a[3] if len(a) > 3 else kw.get('atol', N.const(Fraction(1, 10 ** 8)))
    if p is None or q is None or (p.shape != q.shape and len(p.items) != 1 and len(q.items) != 1):
        return dd.bvar(('allclose', I.freeze(st, a[0]), I.freeze(st, a[1])))
    n = max(len(p.items), len(q.items))
    xs = p.items * n if len(p.items) == 1 else p.items
    ys = q.items * n if len(q.items) == 1 else q.items
    r = TRUE
    for x, y in zip(xs, ys):
        r = AND(r, apply(lambda u, v, k, t: N_close(u, v, N.add(t, N.mul(k, N.fabs(v)))), x, y, rtol, atol))
    return r


@opaque_ok('numpy.interp')
def e_interp(I, st, a, kw, node):
    x, xp, fp = to_nd(I, st, a[0]), to_nd(I, st, a[1]), to_nd(I, st, a[2])

    def one(v):
        return apply(lambda *n: N.generic('interp%d' % len(xp.items), n), v, *xp.items, *fp.items)
    def exact(s, v):
        # piecewise linear through nodes in increasing order, constant outside
        xs, fs = xp.items, fp.items
        r = fs[-1]
        for i in range(len(xs) - 2, -1, -1):
            def seg(v, x0, x1, f0, f1):
                w = N.sub(x1, x0)
                if w == N.ZERO:
                    return f1
                return N.add(f0, N.mul(N.div(N.sub(v, x0), w), N.sub(f1, f0)))
            r = dd.ite(I.truth(s, I.order(s, ast.Lt(), v, xs[i + 1], node)), apply(seg, v, xs[i], xs[i + 1], fs[i], fs[i + 1]), r)
        return dd.ite(I.truth(s, I.order(s, ast.Lt(), v, xs[0], node)), fs[0], r)
    if x is None:
        if len(xp.items) == len(fp.items) <= 6 and all(isinstance(q, Num) and q.const() is not None for q in xp.items):
            return exact(st, a[0])
        return one(a[0])
    return nd_new(I, st, Nd(x.shape, [one(v) for v in x.items]))


def np_stack(name):
    @opaque_ok('numpy.' + name)
    def f(I, st, a, kw, node):
        xs = [to_nd(I, st, x) for x in I.items(st, a[0], node)]
        xs = [Nd((), [y]) if x is None else x for x, y in zip(xs, I.items(st, a[0], node))]
        return nd_new(I, st, join(I, st, name, xs, need_int(kw.get('axis', a[1] if len(a) > 1 else N.ZERO)), node))


def join(I, st, name, xs, ax, node):
    if name in ('vstack', 'row_stack'):
        xs, ax = [Nd((1, size(x.shape)), x.items) if len(x.shape) < 2 else x for x in xs], 0
    elif name == 'column_stack':
        xs, ax = [Nd((size(x.shape), 1), x.items) if len(x.shape) < 2 else x for x in xs], 1
    elif name == 'hstack':
        xs = [Nd((1,), x.items) if not x.shape else x for x in xs]
        ax = 0 if len(xs[0].shape) == 1 else 1
    elif name == 'stack':
        n = len(xs[0].shape)
        ax %= n + 1
        xs = [Nd(x.shape[:ax] + (1,) + x.shape[ax:], x.items) for x in xs]
    n = len(xs[0].shape)
    if not n:
        I.raise_exc(st, 'ValueError', 'zero-dimensional arrays cannot be concatenated', node)
    ax %= n
    if any(len(x.shape) != n or x.shape[:ax] + x.shape[ax + 1:] != xs[0].shape[:ax] + xs[0].shape[ax + 1:] for x in xs):
        I.raise_exc(st, 'ValueError', 'dimensions must match exactly', node)
    outer = size(xs[0].shape[:ax])
    items = []
    for i in range(outer):
        for x in xs:
            w = size(x.shape[ax:])
            items += x.items[i * w:(i + 1) * w]
    return Nd(xs[0].shape[:ax] + (sum(x.shape[ax] for x in xs),) + xs[0].shape[ax + 1:], items)


for _n in ('vstack', 'concatenate', 'hstack', 'column_stack', 'stack', 'row_stack'):
    np_stack(_n)


@opaque_ok('numpy.append')
def e_append(I, st, a, kw, node):
    xs = [to_nd(I, st, x) or Nd((1,), [x]) for x in a[:2]]
    if 'axis' not in kw and len(a) < 3:
        xs = [Nd((len(x.items),), x.items) for x in xs]
    return nd_new(I, st, join(I, st, 'concatenate', xs, need_int(kw.get('axis', a[2] if len(a) > 2 else N.ZERO)), node))


@opaque_ok('numpy.diag')
def e_diag(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    if kw or len(a) > 1 or len(c.shape) not in (1, 2):
        raise Unsupported('diag')
    if len(c.shape) == 1:
        n = c.shape[0]
        return nd_new(I, st, Nd((n, n), [c.items[i] if i == j else N.ZERO for i in range(n) for j in range(n)]))
    n, m = c.shape
    return nd_new(I, st, Nd((min(n, m),), [c.items[i * m + i] for i in range(min(n, m))]))


METHODS[('nd', 'diagonal')] = EXT['numpy.diagonal'] = None
METHODS[('nd', 'diagonal')] = lambda I, st, l, a, kw, node: e_diag(I, st, [l] + a, kw, node)
EXT['numpy.diagonal'] = e_diag


@opaque_ok('numpy.trace')
def e_trace(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    return apply(lambda *xs: functools.reduce(N.add, xs), *[c.items[i * c.shape[1] + i] for i in range(min(c.shape))])


@opaque_ok('numpy.outer')
def e_outer(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    return nd_new(I, st, Nd((len(p.items), len(q.items)), [apply(N.mul, x, y) for x in p.items for y in q.items]))


@opaque_ok('numpy.inner')
def e_inner(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    if len(p.shape) != 1 or len(q.shape) != 1:
        raise Unsupported('inner')
    return ndot(I, st, p, q, node).items[0]


EXT['numpy.vdot'] = EXT['numpy.inner']


@opaque_ok('numpy.arange')
def e_arange(I, st, a, kw, node):
    xs = [need_int(x) for x in a]
    return nd_new(I, st, Nd((len(range(*xs)),), [N.const(i) for i in range(*xs)]))


@opaque_ok('numpy.where')
def e_where(I, st, a, kw, node):
    if len(a) != 3:
        raise Unsupported('where')
    p, q = a[1], a[2]
    sel = nd_pair(I, st, a[0], p, lambda s, u, v: dd.ite(I.truth(s, u), v, lit('else')), node)
    return nd_pair(I, st, sel, q, lambda s, u, v: apply(lambda x, y: y if x == lit('else') else x, u, v), node)


@opaque_ok('numpy.clip')
def e_clip(I, st, a, kw, node):
    r = a[0]
    if a[1] != NONE:
        r = nd_pair(I, st, r, a[1], lambda s, u, v: apply(lambda x, y: N.maxn([x, y]), u, v), node)
    if a[2] != NONE:
        r = nd_pair(I, st, r, a[2], lambda s, u, v: apply(lambda x, y: N.minn([x, y]), u, v), node)
    return r


@opaque_ok('numpy.diff')
def e_diff(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    if kw or len(a) > 1 or len(c.shape) != 1:
        raise Unsupported('diff')
    return nd_new(I, st, Nd((len(c.items) - 1,), [apply(N.sub, y, x) for x, y in zip(c.items, c.items[1:])]))


@opaque_ok('numpy.cumsum')
def e_cumsum(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    if kw or len(a) > 1 or len(c.shape) != 1:
        raise Unsupported('cumsum')
    out = []
    for v in c.items:
        out.append(apply(N.add, out[-1], v) if out else v)
    return nd_new(I, st, Nd(c.shape, out))


@opaque_ok('numpy.tile')
def e_tile(I, st, a, kw, node):
    c = to_nd(I, st, a[0]) or Nd((1,), [a[0]])
    reps = [need_int(x) for x in a[1].items] if isinstance(a[1], Tup) else [need_int(a[1])]
    n = max(len(reps), len(c.shape))
    reps = [1] * (n - len(reps)) + reps
    shape = (1,) * (n - len(c.shape)) + tuple(c.shape)
    out, items = [r * s for r, s in zip(reps, shape)], []
    for pos in itertools.product(*(range(s) for s in out)):
        k = 0
        for p, s in zip(pos, shape):
            k = k * s + p % s
        items.append(c.items[k])
    return nd_new(I, st, Nd(out, items))


@opaque_ok('numpy.repeat')
def e_repeat(I, st, a, kw, node):
    c = to_nd(I, st, a[0]) or Nd((1,), [a[0]])
    if kw or len(a) > 2:
        raise Unsupported('repeat along an axis')
    n = need_int(a[1])
    return nd_new(I, st, Nd((len(c.items) * n,), [v for v in c.items for _ in range(n)]))


def np_shape_op(name):
    @opaque_ok('numpy.' + name)
    def f(I, st, a, kw, node):
        r = a[0] if isinstance(a[0], Ref) and I.rec(st, a[0]).kind == 'nd' else nd_from(I, st, a[0])
        return I.call_method(st, r, name, list(a[1:]))


for _n in ('reshape', 'ravel', 'squeeze'):
    np_shape_op(_n)


@opaque_ok('numpy.expand_dims')
def e_expand(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    ax = need_int(kw.get('axis', a[1] if len(a) > 1 else N.ZERO)) % (len(c.shape) + 1)
    return nd_new(I, st, Nd(c.shape[:ax] + (1,) + c.shape[ax:], c.items))


@opaque_ok('numpy.flip')
def e_flip(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    if kw or len(a) > 1:
        raise Unsupported('flip')
    return nd_new(I, st, Nd(c.shape, c.items[::-1]))


def at_least(n):
    @opaque_ok('numpy.atleast_%dd' % n)
    def f(I, st, a, kw, node):
        c = to_nd(I, st, a[0]) or Nd((), [a[0]])
        return nd_new(I, st, Nd((1,) * (n - len(c.shape)) + tuple(c.shape), c.items))


at_least(1)
at_least(2)


@opaque_ok('numpy.ndim')
def e_ndim(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    return N.const(len(c.shape) if c else 0)


@opaque_ok('numpy.shape')
def e_shape(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    return Tup([N.const(x) for x in c.shape] if c else [])


@opaque_ok('numpy.size')
def e_npsize(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    return N.const(len(c.items) if c else 1)


@ext('numpy.transpose')
def e_transpose(I, st, a, kw, node):
    return transpose(I, st, nd_from(I, st, a[0]) if not (isinstance(a[0], Ref) and I.rec(st, a[0]).kind == 'nd') else a[0])


@ext('numpy.round', 'numpy.around')
def e_npround(I, st, a, kw, node):
    if isinstance(a[0], Ref) and I.rec(st, a[0]).kind != 'nd':
        a = [nd_from(I, st, a[0])] + list(a[1:])
    return b_round(I, st, a, {'ndigits': kw['decimals']} if 'decimals' in kw else {}, node)


@ext('numpy.dtype')
def e_dtype(I, st, a, kw, node):
    return Opq('dtype')


@opaque_ok('numpy.linspace')
def e_linspace(I, st, a, kw, node):
    n = need_int(a[2] if len(a) > 2 else kw.get('num', N.const(50)))
    endpoint = kw.get('endpoint', TRUE)
    if endpoint not in (TRUE, FALSE) or any(not isinstance(l, Num) for x in a[:2] for l in leaves(x)):
        raise Unsupported('linspace')
    d = (n - 1 if endpoint == TRUE else n) or 1
    return nd_new(I, st, Nd((n,), [apply(lambda lo, hi, i=i: N.add(N.mul(N.const(Fraction(d - i, d)), lo), N.mul(N.const(Fraction(i, d)), hi)),
                                         a[0], a[1]) for i in range(n)]))


@opaque_ok('numpy.meshgrid')
def e_meshgrid(I, st, a, kw, node):
    if len(a) != 2:
        raise Unsupported('meshgrid')
    x, y = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    nx, ny = len(x.items), len(y.items)
    if kw.get('indexing', lit('xy')) == lit('ij'):
        return I.new_list(st, [nd_new(I, st, Nd((nx, ny), [x.items[i] for i in range(nx) for _ in range(ny)])),
                                 nd_new(I, st, Nd((nx, ny), [y.items[j] for _ in range(nx) for j in range(ny)]))])
    return I.new_list(st, [nd_new(I, st, Nd((ny, nx), [x.items[j] for _ in range(ny) for j in range(nx)])),
                             nd_new(I, st, Nd((ny, nx), [y.items[i] for i in range(ny) for _ in range(nx)]))])


@opaque_ok('scipy.interpolate.RegularGridInterpolator')
def e_rgi(I, st, a, kw, node):
    coords = [to_nd(I, st, x) for x in I.items(st, a[0], node)]
    vals = to_nd(I, st, a[1] if len(a) > 1 else kw['values'])
    if any(c is None for c in coords) or vals is None:
        raise Unsupported('interpolator over unknown grids')
    if tuple(len(c.items) for c in coords) != tuple(vals.shape[:len(coords)]):
        I.raise_exc(st, 'ValueError', 'There are points and values of different lengths', node)
    extra = {k: v for k, v in kw.items() if k not in ('values', 'method', 'bounds_error', 'fill_value')}
    if extra or kw.get('method', lit('linear')) != lit('linear') or len(a) > 2:
        raise Unsupported('interpolator with other options')
    bounds, fill = kw.get('bounds_error', TRUE), kw.get('fill_value', lit('nan'))
    src = a[1] if len(a) > 1 else kw['values']      # an array is kept as it is, not copied
    keep = src if isinstance(src, Ref) and I.rec(st, src).kind == 'nd' else nd_new(I, st, vals)
    return Partial(Builtin('scipy._rgi'), (lit(','.join(str(len(c.items)) for c in coords)), Tup([x for c in coords for x in c.items]), keep, bounds, fill), ())


@ext('random.uniform')
def e_uniform(I, st, a, kw, node):
    """some number between the two, a new one each time"""
    I.randoms = getattr(I, 'randoms', 0) + 1
    v = N.var('random%d' % I.randoms)
    lo, hi = a[0], a[1]
    up = I.truth(st, I.order(st, ast.LtE(), lo, hi, node))

    def between(x, y):
        return AND(I.truth(st, I.order(st, ast.LtE(), x, v, node)), I.truth(st, I.order(st, ast.LtE(), v, y, node)))
    st.pc = AND(st.pc, OR(AND(up, between(lo, hi)), AND(NOT(up), between(hi, lo))))
    return v


@builtin('scipy._rgi')
def b_rgi(I, st, a, kw, node):
    shape, xs, vs, bounds, fill, pts = a[0], a[1], I.nd_content(st, a[2]), a[3], a[4], to_nd(I, st, a[5])
    if pts is None:
        raise Unsupported('interpolator on unknown points')
    rows = [pts.items] if len(pts.shape) == 1 else [pts.items[i * pts.shape[1]:(i + 1) * pts.shape[1]] for i in range(pts.shape[0])]
    dims = [int(x) for x in shape.lit.split(',')]
    axes, k = [], 0
    for d in dims:
        axes.append(xs.items[k:k + d])
        k += d

    def leq(x, y):
        return I.truth(st, I.order(st, ast.LtE(), x, y, node))

    def along(axis, p, off, step):
        """linear between neighbouring nodes; beyond the ends as in the outermost interval"""
        if axis == len(dims):
            return vs.items[off]
        g, x = axes[axis], p[axis]
        inner = 1
        for d in dims[axis + 1:]:
            inner *= d
        if x in g:
            return along(axis + 1, p, off + g.index(x) * inner, inner)
        if len(g) < 2:
            raise Unsupported('interpolator over one node')
        out = [along(axis + 1, p, off + i * inner, inner) for i in range(len(g))]

        def seg(x, g0, g1, v0, v1):
            d = N.sub(v1, v0)
            return N.add(v0, N.mul(d, N.div(N.sub(x, g0), N.sub(g1, g0)))) if d != N.ZERO else v0
        r = None
        for i in range(len(g) - 2, -1, -1):
            v = apply(seg, x, g[i], g[i + 1], out[i], out[i + 1])
            r = v if r is None or r == v else ite(leq(x, g[i + 1]), v, r)
        return r

    res = []
    for p in rows:
        if len(p) != len(dims):
            raise Unsupported('interpolator on points of another dimension')
        v = along(0, p, 0, 1)
        if bounds != FALSE or fill != NONE:
            within = TRUE
            for g, x in zip(axes, p):
                if x not in g:
                    within = AND(within, AND(leq(g[0], x), leq(x, g[-1])))
            if bounds == FALSE:
                v = ite(within, v, fill)
            elif bounds == TRUE:
                I.guard_raise(st, NOT(within), 'ValueError', 'One of the requested xi is out of bounds', node)
            else:
                raise Unsupported('interpolator with other options')
        res.append(v)
    return nd_new(I, st, Nd((len(rows),), res))


@opaque_ok('numpy.linalg.norm')
def e_norm(I, st, a, kw, node):
    c = to_nd(I, st, a[0])
    axis = kw.get('axis', NONE)
    if len(a) > 1 or set(kw) - {'axis'}:
        raise Unsupported('norm')
    if axis == NONE or len(c.shape) == 1:
        return apply(N.hypot, *c.items)
    if len(c.shape) != 2:
        raise Unsupported('norm')
    n, m = c.shape
    rows = [[c.items[i * m + j] for i in range(n)] for j in range(m)] if need_int(axis) % 2 == 0 else [c.items[i * m:(i + 1) * m] for i in range(n)]
    return nd_new(I, st, Nd((len(rows),), [apply(N.hypot, *r) for r in rows]))


@ext('numpy.linalg.solve')
def e_solve(I, st, a, kw, node):
    return e_dot(I, st, [e_inv(I, st, [a[0]], {}, node), a[1]], {}, node)


@ext('numpy.cross')
def e_cross(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    if p.shape == q.shape == (2,):
        return apply(lambda a1, a2, b1, b2: N.sub(N.mul(a1, b2), N.mul(a2, b1)), *p.items, *q.items)
    if p.shape == q.shape == (3,) and not kw:
        det = lambda i, j: apply(lambda a1, a2, b1, b2: N.sub(N.mul(a1, b2), N.mul(a2, b1)), p.items[i], p.items[j], q.items[i], q.items[j])
        return nd_new(I, st, Nd((3,), [det(1, 2), det(2, 0), det(0, 1)]))
    raise Unsupported('cross')


@opaque_ok('numpy.isclose')
def e_isclose(I, st, a, kw, node):
    p, q = to_nd(I, st, a[0]), to_nd(I, st, a[1])
    if p is None and q is None:
        return e_allclose(I, st, a, kw, node)
    p, q = p or Nd((1,), [a[0]]), q or Nd((1,), [a[1]])
    if p.shape != q.shape and len(p.items) != 1 and len(q.items) != 1:
        raise Unsupported('isclose of different shapes')
    n = max(len(p.items), len(q.items))
    xs = p.items * n if len(p.items) == 1 else p.items
    ys = q.items * n if len(q.items) == 1 else q.items
    rtol = a[2] if len(a) > 2 else kw.get('rtol', N.const(Fraction(1, 10 ** 5)))
    atol = a[3] if len(a) > 3 else kw.get('atol', N.const(Fraction(1, 10 ** 8)))
    r = [apply(lambda u, v, k, t: N_close(u, v, N.add(t, N.mul(k, N.fabs(v)))), x, y, rtol, atol) for x, y in zip(xs, ys)]
    return nd_new(I, st, Nd(p.shape if len(p.items) >= len(q.items) else q.shape, r))


@opaque_ok('numpy.roll')
def e_roll(I, st, a, kw, node):
    p = to_nd(I, st, a[0])
    k = need_int(a[1] if len(a) > 1 else kw['shift'])
    axis = a[2] if len(a) > 2 else kw.get('axis', NONE)
    if axis == NONE:
        n = len(p.items)
        return nd_new(I, st, Nd(p.shape, [p.items[(i - k) % n] for i in range(n)]))
    ax = need_int(axis)
    if len(p.shape) == 1:
        n = len(p.items)
        return nd_new(I, st, Nd(p.shape, [p.items[(i - k) % n] for i in range(n)]))
    if len(p.shape) != 2:
        raise Unsupported('roll')
    n, m = p.shape
    if ax % 2 == 0:
        return nd_new(I, st, Nd(p.shape, [p.items[((i - k) % n) * m + j] for i in range(n) for j in range(m)]))
    return nd_new(I, st, Nd(p.shape, [p.items[i * m + (j - k) % m] for i in range(n) for j in range(m)]))


@opaque_ok('numpy.insert')
def e_insert(I, st, a, kw, node):
    p = to_nd(I, st, a[0])
    axis = a[3] if len(a) > 3 else kw.get('axis', NONE)
    at = need_int(a[1])
    v = to_nd(I, st, a[2])
    if len(p.shape) == 1 or axis == NONE:
        n = len(p.items)
        at = at + n if at < 0 else at
        return nd_new(I, st, Nd((n + len(v.items if v else [0]),), list(p.items[:at]) + (list(v.items) if v else [a[2]]) + list(p.items[at:])))
    if len(p.shape) != 2:
        raise Unsupported('insert')
    n, m = p.shape
    if need_int(axis) % 2 == 0:
        at = at + n if at < 0 else at
        row = list(v.items) if v else [a[2]] * m
        if len(row) != m:
            raise Unsupported('insert of several rows')
        return nd_new(I, st, Nd((n + 1, m), list(p.items[:at * m]) + row + list(p.items[at * m:])))
    at = at + m if at < 0 else at
    col = list(v.items) if v and len(v.items) > 1 else [v.items[0] if v else a[2]] * n
    if len(col) != n:
        raise Unsupported('insert of several columns')
    out = []
    for i in range(n):
        r = list(p.items[i * m:(i + 1) * m])
        out += r[:at] + [col[i]] + r[at:]
    return nd_new(I, st, Nd((n, m + 1), out))


@opaque_ok('numpy.sign')
def e_sign(I, st, a, kw, node):
    p = to_nd(I, st, a[0])
    f = lambda x: apply(lambda v: ite(num_lt(N.ZERO, v), N.ONE, ite(num_lt(v, N.ZERO), N.const(-1), N.ZERO)), x)
    if p is None:
        return f(a[0])
    return nd_new(I, st, Nd(p.shape, [f(x) for x in p.items]))


def arg_extreme(op):
    def f(I, st, a, kw, node):
        p = to_nd(I, st, a[0])
        if p is None or len(a) > 1 or kw or not p.items:
            raise Unsupported('argmin')
        best, at = p.items[0], N.ZERO
        for i, x in enumerate(p.items[1:], 1):
            c = apply(num_lt, x, best) if op == 'lt' else apply(num_lt, best, x)
            best, at = ite(c, x, best), ite(c, N.const(i), at)
        return at
    return f


opaque_ok('numpy.argmin')(arg_extreme('lt'))
opaque_ok('numpy.argmax')(arg_extreme('gt'))
for _n in ('argmin', 'argmax'):
    METHODS[('nd', _n)] = (lambda nm: lambda I, st, l, a, kw, node: EXT['numpy.' + nm](I, st, [l] + a, kw, node))(_n)


@opaque_ok('numpy.sort')
def e_sort(I, st, a, kw, node):
    p = to_nd(I, st, a[0])
    if p is None or len(p.shape) != 1 or len(a) > 1 or kw:
        raise Unsupported('numpy.sort')
    r = BUILTINS['sorted'](I, st, [I.new_list(st, list(p.items))], {}, node)
    return nd_new(I, st, Nd(p.shape, list(I.items(st, r))))


@opaque_ok('numpy.split')
def e_split(I, st, a, kw, node):
    p = to_nd(I, st, a[0])
    if p is None or len(a) > 2 or kw or not isinstance(a[1], Num):
        raise Unsupported('numpy.split')
    k, n = need_int(a[1]), p.shape[0]
    m = len(p.items) // n if n else 1
    if n % k:
        raise Unsupported('uneven split')
    w = n // k
    return I.new_list(st, [nd_new(I, st, Nd((w,) + tuple(p.shape[1:]), list(p.items[i * w * m:(i + 1) * w * m]))) for i in range(k)])


@opaque_ok('numpy.fromiter')
def e_fromiter(I, st, a, kw, node):
    items = list(I.items(st, a[0], node))
    return nd_new(I, st, Nd((len(items),), items))


@builtin('_subclasses')
def b_subclasses(I, st, a, kw, node):
    return I.new_list(st, [c.ref for c in I.classes if any(isinstance(b, ClassRef) and b.ci is a[0].ci for b in c.bases)])
