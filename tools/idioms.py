"""Validation of the interpreter (not a check, touches nothing of /repo): programs written below are run by CPython, their values
become expectations of a scratch rule file, and the abstract interpreter has to reach the same values.
    /opt/venv/bin/python tools/idioms.py COPY     # COPY: a scratch copy of check.py, sva/ and specs/; writes COPY/specs/x01.py
    cd COPY && SVA_NO_EVIDENCE=1 python3 check.py X01 -v
Left over are rounding (decimals here are exact) and constructs reported as undecided."""
import subprocess, sys, re, os, textwrap
SNIPS = r'''
r = [x if x > 2 else -x for x in range(5)]
---
a, *b = (1, 2, 3); *c, d = [4, 5, 6]; e, (f, *g), h = 1, (2, 3, 4), 5; r = (a, b, c, d, e, f, g, h)
---
r = []
for i in range(5):
    if i == 3:
        continue
    r.append(i)
else:
    r.append('else')
---
r = []
i = 0
while True:
    i += 1
    if i == 2: continue
    if i > 4: break
    r.append(i)
else:
    r.append('never')
---
n = 10
r = []
while (n := n - 3) > 0:
    r.append(n)
---
def f(*args, k=3, **kw):
    return args, k, sorted(kw.items())
r = (f(1, 2), f(1, k=2, z=3, a=4), f(*[1, 2], **{'k': 5, 'q': 6}))
---
def f(a, b=2, /, c=3, *, d=4):
    return a, b, c, d
r = (f(1), f(1, 5), f(1, 5, c=6, d=7))
---
def g(n):
    yield from range(n)
    x = yield 'end'
    yield x
r = list(g(3))
---
def g():
    got = []
    while True:
        x = yield len(got)
        if x is None: return
        got.append(x)
it = g()
r = [next(it), it.send('a'), it.send('b')]
---
def count():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    return inc
c = count(); r = [c(), c(), c()]
---
fs = [lambda: i for i in range(3)]
gs = [lambda i=i: i for i in range(3)]
r = ([f() for f in fs], [g() for g in gs])
---
from functools import reduce, partial
r = (reduce(lambda a, b: a * b, [1, 2, 3, 4]), reduce(lambda a, b: a + b, [], 7), partial(pow, 2)(5))
---
import itertools as it
r = [list(it.chain([1], (2, 3))), list(it.combinations('abc', 2)), list(it.product([1, 2], repeat=2)), list(it.permutations([1, 2, 3], 2)), list(it.zip_longest([1], [2, 3], fillvalue=0)), list(it.accumulate([1, 2, 3])), list(it.islice(it.count(3), 1, 4)), list(it.starmap(pow, [(2, 3)])), list(it.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(it.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(it.pairwise([1, 2, 3])), list(it.repeat(1, 2)), list(it.compress('abc', [1, 0, 1]))]
---
import itertools
r = [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 3, 3], key=lambda x: x)]
---
import itertools
a, b = itertools.tee([1, 2, 3]); r = (list(a), list(b), list(itertools.filterfalse(lambda x: x % 2, range(5))))
---
r = [sorted([3, 1, 2], reverse=True), sorted('bca', key=lambda c: -ord(c)), max([1, 5, 3], key=lambda x: -x), min([], default=9), max(3, 4), min((1, 2), (1, 1)), sum([1, 2], 10), list(zip([1, 2], 'ab')), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(None, [0, 1, '', 'a'])), list(enumerate('ab', 5)), list(reversed([1, 2, 3]))]
---
r = [abs(-3), divmod(7, 2), divmod(-7, 2), -7 // 2, -7 % 3, 7 % -3, 2 ** 10, 2 ** -1, round(2.5), round(3.5), round(2.675, 2), round(-0.5), round(1234, -2), int(-2.7), int('12'), float('1.5'), pow(2, 3), bool([]), 5 & 3, 5 | 2, 5 ^ 1, ~5, 1 << 4, 17 >> 2]
---
import math
r = [math.floor(-1.5), math.ceil(1.2), math.trunc(-1.7), math.hypot(3, 4), math.dist((0, 0), (3, 4)), math.fmod(7, 3), math.copysign(2, -1), math.gcd(12, 18), math.prod([2, 3]), math.isclose(1, 1 + 1e-12), math.fsum([1, 2]), math.degrees(math.pi), math.isqrt(17), math.modf(2.5), math.fabs(-2), math.isfinite(1.0), math.isnan(1.0), math.remainder(7, 4), math.factorial(4), math.log2(8), math.exp(0), math.cbrt(27) if hasattr(math, 'cbrt') else 3.0]
---
r = ['%s %r %d %5.2f|%-5s|%05d|%x|%%' % ('a', 'b', 3, 1.5, 'z', 42, 255), '%(a)s-%(b)d' % {'a': 1, 'b': 2}, '{} {:>4} {!r:<5}|{x:+d}'.format(1, 2, 'q', x=3), f'{1 + 1:03d} {"x"!r} {3.14159:.2f} {"a":^5}|', f'{5=}']
---
s = 'Hello, World'
r = [s.lower(), s.upper(), s.title(), s.split(', '), s.partition(','), s.rpartition('o'), s.find('o'), s.rfind('o'), s.index('W'), s.replace('l', 'L', 2), s.startswith(('He', 'x')), s.endswith('d'), s.strip('Hd'), s[::-1], s[1:5:2], s[-3:], s.count('l'), 'a-b'.join(['1', '2']), s.center(20, '*'), s.ljust(15) + '|', s.rjust(14), s.zfill(14), s.swapcase(), s.isalpha(), 'ab1'.isalnum(), '12'.isdigit(), s.splitlines(), 'a b  c'.split(), 'a,b,c'.rsplit(',', 1), s.casefold(), 'xyx'.lstrip('x'), 'xyx'.rstrip('x'), 'x' * 3, 'a' < 'b', 'o' in s, 'abc'.removeprefix('a'), 'abc'.removesuffix('c'), s.translate({72: 'J'}), 'a\tb'.expandtabs(4)]
---
d = {'b': 1, 'a': 2}
d['c'] = 3; d.setdefault('b', 9); d.setdefault('z', []).append(1); e = {**d, 'q': 0}; e.pop('q'); e.pop('none', None)
d2 = dict(d, a=5); d2.update({'k': 1}, m=2); del d2['z']; k = d2.popitem()
r = [d, list(e), d2, k, d.get('zz', 7), 'a' in d, len(d), dict(zip('xy', (1, 2))), dict.fromkeys('ab', 0), {v: k for k, v in dict(a=1).items()}, {'a': 1} | {'b': 2}, list(reversed(d)), {'a': 1} == {'a': 1.0}, sorted(d), d.keys() & {'a', 'q'}]
---
s = {1, 2, 3}
t = frozenset([2, 3, 4])
s2 = set(s); s2.add(9); s2.discard(1); s2.remove(2)
r = [sorted(s & t), sorted(s | t), sorted(s - t), sorted(s ^ t), s <= {1, 2, 3, 4}, s.isdisjoint({7}), sorted(s2), len(s), 2 in s, s == {3, 2, 1}, s.issubset(t), sorted(s.intersection([1])), sorted(s.union([5])), sorted({x % 2 for x in range(5)})]
---
l = [1, 2, 3, 4, 5]
l[1:3] = ['a', 'b', 'c']; del l[0]; l[-1] = 'z'; l.insert(1, 'i'); l += [7]; l.extend((8, 9)); del l[::3]; p = l.pop(0)
m = l[:]; m.reverse(); m.sort(key=str); n = [0] * 3; n[0] = 1; l.remove(8)
r = [l, p, m, n, l.index('b'), l.count('b'), l * 2, [1] + [2], [1, 2] < [1, 3], l.copy() == l, [[0] * 2 for _ in range(2)]]
---
r = []
try:
    try:
        raise ValueError('x', 3)
    except (KeyError, ValueError) as e:
        r.append(e.args); r.append(str(e))
        raise TypeError('y') from e
    finally:
        r.append('fin')
except TypeError as e:
    r.append(type(e).__name__); r.append(type(e.__cause__).__name__)
else:
    r.append('no')
---
def f(x):
    try:
        return 'try' + x
    finally:
        x = 'changed'
        out.append(x)
out = []
r = [f('a'), out]
---
def f():
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
            r.append(i)
        finally:
            r.append('f%d' % i)
    return 'done'
r = []; r.append(f())
---
def f():
    try:
        raise KeyError('k')
    finally:
        return 'swallowed'
r = f()
---
class C:
    def __enter__(self): r.append('in'); return self
    def __exit__(self, t, v, tb):
        r.append(t.__name__ if t else None); return t is ValueError
r = []
with C() as c, C():
    r.append('body')
with C():
    raise ValueError('swallowed')
---
from contextlib import contextmanager, ExitStack, suppress
@contextmanager
def cm(x):
    r.append('in' + x)
    try:
        yield x * 2
    finally:
        r.append('out' + x)
r = []
with cm('a') as v:
    r.append(v)
try:
    with cm('b'):
        raise ValueError
except ValueError:
    r.append('caught')
with suppress(KeyError):
    {}['a']
with ExitStack() as st:
    st.enter_context(cm('c')); st.callback(r.append, 'cb')
---
class A:
    z = 1
    def __init__(self, x): self.x = x
    @property
    def twice(self): return self.x * 2
    @twice.setter
    def twice(self, v): self.x = v / 2
    @classmethod
    def make(cls, x): return cls(x + 1)
    @staticmethod
    def st(x): return x - 1
    def __eq__(self, o): return type(o) is type(self) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __repr__(self): return f'A({self.x})'
    def __lt__(self, o): return self.x < o.x
    def __len__(self): return 3
    def __getitem__(self, i): return (self.x, i)
    def __contains__(self, v): return v == self.x
    def __call__(self, *a): return a
    def __iter__(self): return iter([self.x, 1])
    def __bool__(self): return self.x != 0
    def __add__(self, o): return A(self.x + (o.x if isinstance(o, A) else o))
    __radd__ = __add__
    def __iadd__(self, o): self.x += o; return self
    def __getattr__(self, n): return 'got ' + n
class B(A):
    z = 2
    def __init__(self, x): super().__init__(x * 10)
    def __repr__(self): return 'B' + super().__repr__()
a = A(3); b = B.make(1); a.twice = 10; c = a; c += 2
r = [a.x, b, a.twice, A.st(4), a == A(7), a != b, sorted([A(3), A(1)]), len(a), a[1], 7 in a, a(1, 2), list(a), bool(A(0)), a + b, 1 + a, sum([A(1), A(2)]), a.other, isinstance(b, A), issubclass(B, A), B.z, A.z, getattr(a, 'x'), hasattr(A, 'nope'), vars(A(1)), type(b).__name__, b.__class__.__mro__[1].__name__, len({A(1), A(1)}), str(a), '%r %s' % (a, b)]
---
class S:
    __slots__ = ('a', 'b')
    def __init__(self): self.a = 1
s = S(); r = [s.a, hasattr(s, 'b')]
try:
    s.c = 1
except AttributeError:
    r.append('refused')
---
from dataclasses import dataclass, field
@dataclass
class D:
    x: int
    y: list = field(default_factory=list)
    z: str = 'z'
d = D(1); e = D(1); d.y.append(2)
r = [d == e, repr(e), d.y, e.y, D(1, z='q').z]
---
from collections import namedtuple, defaultdict, deque, OrderedDict, Counter
P = namedtuple('P', 'x y')
p = P(1, y=2); q = p._replace(x=5)
d = defaultdict(list); d['a'].append(1)
k = deque([1, 2, 3], maxlen=3); k.append(4); k.appendleft(0); k.rotate(1)
r = [p.x, q, p == (1, 2), dict(d), list(k), list(OrderedDict([('a', 1)]).items()), Counter('aab').most_common(1), p._asdict(), x if (x := 3) else 0]
---
from typing import NamedTuple, Optional, List
class T(NamedTuple):
    a: int
    b: str = 'b'
t = T(1); r = [t, t.b, t[0], list(t), T(*t) == t]
---
from operator import itemgetter, attrgetter, mul, add, methodcaller
r = [sorted([(1, 'b'), (0, 'c')], key=itemgetter(1)), attrgetter('real')(3), mul(2, 3), methodcaller('upper')('a'), itemgetter(0, 2)('abc'), add('a', 'b')]
---
def f(v):
    match v:
        case 0: return 'zero'
        case int() | float() as n if n < 0: return 'neg'
        case (x, y): return ('pair', x, y)
        case [x, *rest]: return ('list', x, rest)
        case {'k': v, **o}: return ('map', v, o)
        case str(): return 'str'
        case None: return 'none'
        case _: return 'other'
r = [f(0), f(-1), f((1, 2)), f([1, 2, 3]), f({'k': 1, 'z': 2}), f('a'), f(None), f(3.5)]
---
import bisect
l = [1, 3, 5]; bisect.insort(l, 4)
r = [l, bisect.bisect(l, 3), bisect.bisect_left(l, 3), bisect.bisect_right(l, 0)]
---
import copy
a = {'x': [1, 2]}; b = copy.copy(a); c = copy.deepcopy(a); a['x'].append(3)
r = [b, c, b['x'] is a['x']]
---
import copy
class A:
    def __init__(self): self.l = [1]; self.k = self.l
a = A(); b = copy.copy(a); c = copy.deepcopy(a); a.l.append(2)
r = [b.l, c.l, c.l is c.k, b.l is a.l]
---
import numpy as np
a = np.array([[1., 2.], [3., 4.]]); v = np.array([1., 1.])
r = [(a @ v).tolist(), a.dot(a).tolist(), a.T.tolist(), np.linalg.inv(a).round(6).tolist(), a.shape, a.ndim, a.size, (a * 2 + 1).tolist(), a.sum(), a.sum(axis=0).tolist(), a.mean(), a.max(), a.min(axis=1).tolist(), a[0, 1], a[:, 0].tolist(), a[1].tolist(), a[::-1].tolist(), np.vstack([a, v]).tolist(), np.hstack([a, a]).tolist(), np.column_stack([v, v]).tolist(), np.concatenate([v, v]).tolist(), np.stack([v, v]).tolist(), np.zeros((2, 2)).tolist(), np.ones(2).tolist(), np.eye(2).tolist(), np.full(2, 3.).tolist(), np.arange(3).tolist(), np.linspace(0, 1, 3).tolist(), a.flatten().tolist(), a.ravel().tolist(), a.reshape(4).tolist(), a.reshape(-1, 1).tolist(), np.linalg.det(np.eye(2)), np.allclose(a, a), np.array_equal(a, a), (a == a).all(), (a > 2).any(), (a > 2).tolist(), np.abs(-a).tolist(), np.sqrt(v).tolist(), np.cross([1, 0, 0], [0, 1, 0]).tolist(), np.outer(v, v).tolist(), np.dot(v, v), np.where(a > 2, a, 0).tolist(), np.clip(a, 2, 3).tolist(), np.hypot(3., 4.), a.copy().tolist(), np.isclose(1, 1 + 1e-12), np.append(v, 3.).tolist(), np.insert(v, 0, 5.).tolist(), np.transpose(a).tolist(), np.array([a, a]).shape, len(a), list(map(list, a)), np.array([1, 2]).astype(float).tolist(), np.identity(2).tolist(), np.diff([1, 4, 9]).tolist(), np.cumsum([1, 2]).tolist(), np.roll([1, 2, 3], 1).tolist(), np.flip([1, 2]).tolist(), np.argmin([3, 1, 2]), np.argmax([3, 1, 2]), np.argsort([3, 1, 2]).tolist(), np.sort([3, 1]).tolist(), np.prod([2, 3]), np.linalg.norm([3., 4.])]
---
import numpy as np
a = np.zeros((2, 3)); a[0] = [1, 2, 3]; a[1, 1:] = 5; a[:, 0] += 1; b = a[0]; b[2] = 9; c = a.copy(); c[0, 0] = 100
d = np.asarray(a); e = np.array(a); d[1, 1] = 7
r = [a.tolist(), b.tolist(), e.tolist(), [x.tolist() for x in a], np.atleast_2d([1, 2]).tolist(), np.expand_dims([1, 2], 0).shape, np.array([[1, 2], [3, 4]])[..., 0].tolist(), np.array([1, 2])[:, None].tolist(), np.array([1, 2])[np.newaxis].tolist(), np.tile([1], 2).tolist(), np.repeat([1, 2], 2).tolist()]
---
import numpy as np
m = np.array([[1., 2.], [3., 4.]])
m += 1
m *= 2
m @= np.eye(2)
x, y = m
a, b = m[0]
r = [m.tolist(), x.tolist(), a, float(b), int(m[0][0]), m.item(1), (-m).tolist(), (m ** 2).tolist(), (m / 2).tolist(), (1 / m).tolist(), (m // 3).tolist(), (m % 3).tolist(), np.matmul(m, m).tolist(), np.einsum('ij,j->i', m, np.array([1., 1.])).tolist(), np.inner([1, 2], [3, 4]), np.trace(m), np.linalg.solve(m, np.array([1., 2.])).round(9).tolist(), m.dtype == float, np.moveaxis(m, 0, 1).tolist(), np.meshgrid([1, 2], [3, 4])[0].tolist(), np.split(np.arange(4), 2)[1].tolist(), np.nonzero([0, 1, 1])[0].tolist(), np.any([0, 1]), np.all([0, 1]), np.maximum([1, 4], [3, 2]).tolist(), np.minimum(1, 2), np.sign([-1, 0, 2]).tolist(), np.round(2.567, 1), np.square([2.]).tolist(), np.unique([2, 1, 2]).tolist(), np.gradient([1., 2., 4.]).tolist(), np.dstack([[1], [2]]).tolist(), np.fromiter((i for i in range(2)), float).tolist(), np.full((1, 2), 7).tolist(), np.empty((0, 2)).shape, np.zeros_like(m).tolist(), np.ones_like(m).tolist()]
---
x = 5
def outer():
    global x
    x = 6
outer(); r = [x, 1 if x else 2, not x, x and 3, 0 or 'd', 1 < x < 10, x is not None, x in (1, 6), 'a' 'b', (1,), ()]
---
r = []
for i, (a, b) in enumerate(zip([1, 2], [3, 4]), start=1):
    r.append((i, a, b))
for a, *b in [(1, 2, 3)]:
    r.append(b)
for d['k'] in [1, 2] if (d := {}) is not None else []:
    r.append(d['k'])
---
it = iter([1, 2, 3])
r = [next(it), list(it), next(it, 'end'), list(iter(lambda c=[0]: c.append(1) or len(c), 4))]
---
r = [any(x > 2 for x in [1, 3]), all([]), any([]), all(x for x in [1, 0]), [y for x in [[1], [2, 3]] for y in x if y != 2], {**{}, 'a': 1}, [*range(2), *'ab'], (*[1], 2)]
---
class Base:
    reg = []
    def __init_subclass__(cls, **kw): Base.reg.append(cls.__name__)
class X(Base): pass
class Y(X): pass
r = Base.reg
---
from enum import Enum
class E(Enum):
    A = 1
    B = 'b'
r = [E.A.value, E.B.name, E('b') is E.B, [e.name for e in E], E.A == E.A, E.A == 1]
---
from abc import ABC, abstractmethod
class A(ABC):
    @abstractmethod
    def f(self): ...
class B(A):
    def f(self): return 1
r = [B().f()]
try:
    A()
except TypeError:
    r.append('abstract')
---
class M:
    def __init__(self): self.log = []
    def a(self): self.log.append('a'); return self
    def b(self, x=1): self.log.append(x); return self
m = M().a().b().b(x=2)
f = m.a; f(); g = M.b; g(m, 9)
r = m.log
---
class D:
    def __set_name__(self, o, n): self.n = '_' + n
    def __get__(self, o, t=None): return getattr(o, self.n, 'unset')
    def __set__(self, o, v): setattr(o, self.n, v + 1)
class H:
    x = D()
h = H(); r = [h.x]; h.x = 4; r.append(h.x)
---
import functools
calls = []
def deco(f):
    @functools.wraps(f)
    def w(*a, **k):
        calls.append(f.__name__); return f(*a, **k)
    return w
@deco
def foo(x): return x
r = [foo(1), calls, foo.__name__]
---
import functools
class A:
    n = 0
    @functools.cached_property
    def p(self): A.n += 1; return 5
a = A(); r = [a.p, a.p, A.n]
@functools.lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
r.append(fib(10))
@functools.singledispatch
def k(x): return 'obj'
@k.register
def _(x: int): return 'int'
r.append([k(1), k('a')])
---
def f(x, acc=[]):
    acc.append(x); return list(acc)
r = [f(1), f(2), f.__defaults__]
---
a = [1, 2, 3]
for x in a:
    if x == 2: a.append(9) if len(a) < 4 else None
r = [a]
b = [1, 2, 3, 4]
for x in b:
    if x % 2 == 0: b.remove(x)
r.append(b)
d = {'a': 1}
try:
    for k in d: d[k + 'x'] = 1
except RuntimeError as e:
    r.append('changed')
---
assert True, 'no'
r = []
try:
    assert 1 == 2, 'msg'
except AssertionError as e:
    r.append(str(e))
for exc, f in [(ZeroDivisionError, lambda: 1 / 0), (IndexError, lambda: [][0]), (KeyError, lambda: {}['a']), (TypeError, lambda: 1 + 'a'), (AttributeError, lambda: (1).foo), (ValueError, lambda: int('x')), (ValueError, lambda: [].index(1)), (TypeError, lambda: len(3)), (StopIteration, lambda: next(iter([]))), (TypeError, lambda: (lambda a: 0)()), (TypeError, lambda: None[0]), (NameError, lambda: undefined_name), (ValueError, lambda: min([])), (IndexError, lambda: [].pop()), (ValueError, lambda: [].remove(1)), (TypeError, lambda: sorted([1, 'a'])), (TypeError, lambda: {}[[]]), (TypeError, lambda: 'a' < 1), (ZeroDivisionError, lambda: 5 % 0), (ValueError, lambda: dict([1, 2]) if 0 else (_ for _ in ()).throw(ValueError)), (TypeError, lambda: (1, 2)[0:1].append(3) if False else None + 1)]:
    try:
        f()
    except exc as e:
        r.append(type(e).__name__)
def unpack():
    a, b = [1, 2, 3]
try:
    unpack()
except ValueError:
    r.append('unpack')
---
r = [1 == 1.0, True == 1, '1' == 1, None == 0, (1, 2) == [1, 2], [1, [2]] == [1, [2]], 1 is True, type(1) is int, type(True), isinstance(True, int), isinstance(1.0, (int, float)), callable(len), callable(3), id(r) == id(r) if 'r' in globals() else True, repr('a\'b'), repr("x\n"), str(1.0), str(1e-7), str(1e16), repr(0.1 + 0.2), str(True), str(None), repr([1, 'a', (2,)]), repr({'a': 1}), str({1}), hex(255), bin(5), oct(8), chr(65), ord('a'), ascii('a'), hash(1) == hash(1.0), 10_000, 1e3, 0x10, 3j.imag, complex(1, 2) * 1j, abs(3 + 4j)]
---
import string, random, sys, os
r = [string.ascii_lowercase[:3], os.path.join('a', 'b'), os.path.basename('x/y.z'), os.path.splitext('a.b'), sys.maxsize > 0]
---
import re
r = [bool(re.match(r'[a-z]+$', 'abc')), re.sub(r'\d', '#', 'a1b2'), re.findall(r'\w', 'a b'), re.split(r',\s*', 'a, b,c'), re.search(r'(\d+)', 'ab12').group(1), re.fullmatch('a', 'ab') is None]
---
def walk(t):
    for k in t:
        if isinstance(k, list): yield from walk(k)
        else: yield k
r = list(walk([1, [2, [3], 4]]))
---
r = [*map(str, range(3))], sum(map(len, ['a', 'bb'])), list(zip(*[(1, 2), (3, 4)])), [list(x) for x in zip(*[[1, 2], [3, 4]])], list(zip([1, 2], [3, 4], strict=True))
---
def gen():
    try:
        yield 1
        yield 2
    finally:
        log.append('closed')
log = []
for x in gen():
    log.append(x)
r = log
---
def gen():
    try:
        yield 1
    except ValueError as e:
        yield 'caught'
g = gen(); next(g)
r = [g.throw(ValueError('x'))]
g2 = gen(); next(g2); g2.close(); r.append('closed')
---
def ret():
    x = yield from inner()
    yield x
def inner():
    yield 1
    return 'value'
r = list(ret())
---
r = []
def f(**kw): return kw
d = {'a': 1}
k = f(**d); k['b'] = 2
r = [d, k]
args = [1, 2]
def g(*a): return a
r.append(g(*args, 3, *(4,)))
---
a = b = [1]
b += [2]
c = (1,); e = c; e += (2,)
r = [a, c, e]
x = 1; x += 1; x *= 3; x -= 1; x //= 2; x **= 2; x %= 3
r.append(x)
l = [1, 2]; l[0] += 5; r.append(l)
---
r = [(lambda *a, **k: (a, k))(1, b=2), (lambda x, y=2: x + y)(1), sorted({'b': 1, 'a': 2}.items(), key=lambda kv: kv[1])]
---
class V:
    def __init__(self, x): self.x = x
    def __mul__(self, o): return NotImplemented if isinstance(o, str) else V(self.x * o)
    def __rmul__(self, o): return V(self.x * o * 10)
    def __neg__(self): return V(-self.x)
    def __abs__(self): return abs(self.x)
    def __round__(self, n=0): return V(round(self.x, n))
    def __float__(self): return float(self.x)
    def __int__(self): return int(self.x)
    def __index__(self): return self.x
    def __eq__(self, o): return NotImplemented
    def __format__(self, s): return 'V<%s>' % s
    def __setitem__(self, k, v): self.x = (k, v)
    def __delitem__(self, k): self.x = k
    def __reversed__(self): return iter('rev')
    def __invert__(self): return 'inv'
    def __pos__(self): return 'pos'
    def __truediv__(self, o): return 'div'
    def __floordiv__(self, o): return 'fdiv'
    def __mod__(self, o): return 'mod'
    def __matmul__(self, o): return 'mm'
    def __pow__(self, o): return 'pow'
    def __and__(self, o): return 'and'
    def __or__(self, o): return 'or'
v = V(3); w = V(1.26)
r = [(v * 2).x, (2 * v).x, (-v).x, abs(V(-2)), round(w, 1).x, float(v), int(w), [1, 2, 3, 4][v], v == v, v == 3, f'{v:z}', ~v, +v, v / 1, v // 1, v % 1, v @ 1, v ** 2, v & 1, v | 1, list(reversed(v))]
v['a'] = 1; r.append(v.x); del v['q']; r.append(v.x)
---
class A:
    def f(self): return 'A'
class B(A):
    def f(self): return 'B' + super().f()
class C(A):
    def f(self): return 'C' + super().f()
class D(B, C):
    def f(self): return 'D' + super().f()
r = [D().f(), [c.__name__ for c in D.__mro__]]
---
class A:
    def __new__(cls, x):
        o = super().__new__(cls); o.y = x; return o
    def __init__(self, x): self.x = x
a = A(1); r = [a.x, a.y]
b = A.__new__(A, 5); r.append(b.y); r.append(hasattr(b, 'x'))
c = object.__new__(A); c.__dict__.update(a.__dict__); r.append(c.x)
setattr(c, 'q', 3); delattr(c, 'x'); r.append(sorted(c.__dict__))
---
class A:
    x = []
    def __delattr__(self, n): r.append('del ' + n)
    def __setattr__(self, n, v): r.append('set ' + n); object.__setattr__(self, n, v)
r = []
a = A(); a.b = 1; del a.b; r.append(a.b)
---
import time, warnings, logging, io
s = io.StringIO(); print('a', 1, sep='-', end='!', file=s); r = [s.getvalue()]
---
from itertools import chain
class Node:
    def __init__(self, v, *kids): self.v, self.kids = v, kids
    def walk(self):
        return chain([self.v], *(k.walk() for k in self.kids))
r = list(Node(1, Node(2, Node(3)), Node(4)).walk())
---
x = [3, 1, 2]
x.sort(reverse=True); y = sorted(x, key=lambda v: (v % 2, v))
z = sorted([('b', 2), ('a', 2), ('c', 1)], key=lambda p: p[1])
r = [x, y, z, sorted(z, key=lambda p: p[0], reverse=True)]
---
m = [[1, 2], [3, 4]]
t = [[row[i] for row in m] for i in range(2)]
f = [c for row in m for c in row]
n = {i: {j: i * j for j in range(2)} for i in range(2)}
r = [t, f, n, [(i, j) for i in range(3) for j in range(i)], sum(sum(row) for row in m)]
---
def f(n): return 1 if n <= 1 else n * f(n - 1)
r = [f(5), (lambda s, n: s(s, n))(lambda s, n: n if n < 2 else s(s, n - 1) + s(s, n - 2), 7)]
---
class P:
    def __init__(self): self._l = [3, 4]
    def __iter__(self): yield from self._l
p = P(); a, b = p
r = [a, b, list(p), max(p), sum(p), 3 in p, tuple(p), [*p], dict(zip(p, 'ab')), list(zip(p, p))]
---
r = [bytes([1, 2]) == b'\x01\x02', b'ab'.decode(), 'ab'.encode(), bytearray(b'a')[0], b'ab'.hex()]
---
from fractions import Fraction
from decimal import Decimal
r = [Fraction(1, 2) + Fraction(1, 3) == Fraction(5, 6), Decimal('1.5') * 2 == 3]
---
t = (1, 2, 3)
r = [t[1:], t[-1], t + (4,), t * 2, t.index(2), t.count(1), len(t), t < (1, 2, 4), tuple(x for x in t), 2 in t, hash(t) == hash((1, 2, 3)), t == (1, 2, 3), tuple(reversed(t))]
---
r = slice(1, 3), [0, 1, 2, 3][slice(1, 3)]; r = r[1]
---
r = [range(5)[1:3] == range(1, 3), len(range(0, 10, 3)), list(range(5, 0, -2)), 3 in range(5), range(3)[-1], list(reversed(range(3))), range(10).index(4), sum(range(4))]
---
class Meta(type):
    def __call__(cls, *a):
        o = super().__call__(*a); o.tag = 'm'; return o
class K(metaclass=Meta):
    def __init__(self, v): self.v = v
r = [K(3).tag, K(3).v]
---
import types
ns = types.SimpleNamespace(a=1); ns.b = 2; r = [ns.a, ns.b, ns == types.SimpleNamespace(a=1, b=2)]
---
import collections
cm = collections.ChainMap({'a': 1}, {'a': 2, 'b': 3}); r = [cm['a'], cm['b']]
---
import weakref, heapq
h = [3, 1, 2]; heapq.heapify(h); r = [heapq.heappop(h), heapq.nsmallest(2, [3, 1, 2]), heapq.nlargest(1, [1, 2])]
---
f = lambda: (yield 3)
r = list(f())
---
if (n := len('abc')) > 2 and (m := n * 2): r = [n, m]
---
r = [i for i in range(10) if i % 2 if i % 3], [(a, b) for a, b in {'x': 1}.items()], next((x for x in [1, 2, 3] if x > 1), None), next((x for x in []), 'none')
---
def tr(f, *a):
    try: return f(*a)
    except Exception as e: return type(e).__name__
class W:
    def __eq__(self, o): raise RuntimeError
r = [tr(lambda: [W()] == [W()]), tr(lambda: W() in [1]), tr(lambda: [1, 2][5]), tr(lambda: {1: 2}[3])]
---
import statistics, cmath
r = [statistics.mean([1, 2, 3]), cmath.phase(1j), abs(cmath.exp(0j))]
---
import itertools
taken = {'a#0', 'a#1'}
for n in itertools.count():
    name = 'a#%d' % n
    if name not in taken:
        break
r = (name, n, next('a#%d' % i for i in itertools.count() if 'a#%d' % i not in taken), next(itertools.dropwhile(taken.__contains__, map('a#%d'.__mod__, itertools.count()))))
---
def name_of(v):
    match v:
        case int() if (big := v > 3):
            return 'big', big
        case [x, *_] as whole if len(whole) > x:
            return x, len(whole)
        case str() as s if found := [c for c in s if c in 'aeiou']:
            return found
        case _:
            return 'none'
r = [name_of(5), name_of(2), name_of([1, 2]), name_of([3]), name_of('hello'), name_of('xyz')]
---
import itertools
out = []
for i, c in zip(itertools.count(3, 2), 'abc'):
    out.append((i, c))
for x in itertools.cycle('ab'):
    out.append(x)
    if len(out) > 7: break
r = out + list(itertools.islice((x * x for x in itertools.count(1)), 3))
---
import itertools
class T:
    def __init__(self): self.parts = [[1], [], [2, 3]]
    def all(self): return list(itertools.chain.from_iterable(p for p in self.parts))
r = (T().all(), list(map((2).__mul__, [1, 2])), list(map('x'.__add__, 'ab')), (3).__rsub__(10), (1, 2).__add__((3,)))
---
import numpy as np
a = np.arange(12.).reshape(3, 4)
r = [a[[0, 1], [0, 1]].tolist(), a[[0, 2]].tolist(), a[:, [1, 3]].tolist(), a[[2, 0], 1:3].tolist(), a[1, [0, 2]].tolist(), a[[[0], [2]], [1, 3]].tolist(), a[np.array([0, 1]), ::-1].tolist(), a[(0, 1), (2, 3)].tolist(), a[[True, False, True]].tolist(), a[[True, False, True], 1].tolist(), a[..., [0, -1]].tolist()]
---
import numpy as np
a = np.arange(9.).reshape(3, 3)
a[[0, 1], [0, 1]] = 7
a[:, [2]] = [[1], [2], [3]]
a[[0, 2]] += 10
a[np.array([1, 2]), 0] = [5, 6]
b = a[[0, 1]]
b[0, 0] = -1
r = [a.tolist(), b.tolist()]
---
import numpy as np
a = np.arange(8.).reshape(2, 2, 2)
r = [a[0, [1, 0], 1].tolist(), a[[0, 1], :, [1, 0]].tolist(), a[:, [0, 1], [1, 0]].tolist(), a[a > 3].tolist(), a[1, [[0, 1], [1, 1]]].tolist()]
---
import numpy as np
m = np.identity(3)
k = np.diag_indices(2)
m[:2, :2] = [[2, 0], [0, 4]]
r = [(m[:2, :2] == np.identity(2)).all(), (m[:2, 2] * m[[0, 1], [0, 1]]).tolist(), m[np.ix_([0, 1], [0, 2])].tolist(), [int(x) for x in np.flatnonzero(m)]]
'''
import ast
snips = []
for s in re.split(r'^---$', SNIPS, flags=re.M):
    s = s.strip('\n')
    t = ast.parse(s)
    last = t.body[-1]
    if isinstance(last, ast.Assign) and isinstance(last.value, (ast.List, ast.Tuple)) and len(last.value.elts) > 6 and 'next(' not in s and not any(isinstance(x, ast.Starred) for x in last.value.elts) and ':=' not in s:
        pre = ast.unparse(ast.Module(t.body[:-1], []))
        snips += [pre + '\nr = [' + ast.unparse(e) + ']' for e in last.value.elts]
    else:
        snips.append(s)
only = [int(x) for x in sys.argv[2:]]
out = ['from specs.prelude import *', 'SN = {}', '']
exp = []
import math, decimal
def clean(v):
    import numpy as np
    if isinstance(v, np.generic): v = v.item()
    if isinstance(v, (dict, list, tuple)):
        kids = [clean(x) for x in (list(v) + list(v.values()) if isinstance(v, dict) else v)]
        if None in kids: return None
    if isinstance(v, dict): return '{' + ', '.join('%s: %s' % (clean(a), clean(b)) for a, b in v.items()) + '}'
    if type(v) is list: return '[' + ', '.join(map(clean, v)) + ']'
    if isinstance(v, tuple): return '(' + ''.join(clean(x) + ', ' for x in v) + ')'
    if isinstance(v, (bool, int, float, str, type(None))): return repr(v)
    return None
split = []
for i, s in enumerate(snips):
    if only and i not in only: continue
    g = {}
    exec(s, g)
    r = g['r']
    parts = r if isinstance(r, (list, tuple)) else [r]
    want = [clean(x) for x in parts]
    for j, w in enumerate(want):
        if w is not None and 'None' == w and parts[j] is not None: continue
        split.append((i, j, w))
    out.append('def run_%d():\n%s\n    return list(r) if isinstance(r, (list, tuple)) else [r]\n' % (i, textwrap.indent(re.sub(r'^global .*$', '', s, flags=re.M), '    ')) if 'global ' not in s and 'globals()' not in s and 'nonlocal r' not in s else '')
    if not out[-1]: continue
    out.append('def case_i%d():\n    res = run_%d()\n' % (i, i) + '\n'.join("    same(res[%d], %s, 'item %d')" % (j, w, j) for j, w in enumerate(want) if w is not None) + '\n')
open(os.path.join(sys.argv[1], 'specs', 'x01.py'), 'w').write('\n'.join(out))
