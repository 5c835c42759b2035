"""
Algebraic normal forms for abstract numbers.

A number is a rational function  n / (d1^e1 * d2^e2 ...)  whose numerator is a polynomial with exact
rational coefficients over hash-consed *atoms* (input variables, PI, sin(..), cos(..), sqrt(..), max{..},
floor(..), ...).  Ring relations used by the normal form:
    sin(x)^2 -> 1 - cos(x)^2,   sqrt(p)^2 -> p,   |p|^2 -> p^2
Addition formulas, parity and periodicity are applied when sin/cos atoms are built.  Two numbers are equal
when the numerator of their difference is the zero polynomial.
"""
import math
from fractions import Fraction

F = Fraction


class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'dom', 'key')

    def __repr__(self):
        if self.kind == 'fn':
            return '%s(%s)' % (self.name, ', '.join(map(str, self.args)))
        return str(self.name)


_atoms = {}
_atom_list = []


def _intern_atom(kind, name, args=(), dom='real'):
    key = (kind, name, dom if kind == 'var' else '', tuple(a.key if isinstance(a, Num) else a for a in args))
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.kind, a.name, a.args, a.dom, a.key = kind, name, args, dom, key
        _atoms[key] = a
        _atom_list.append(a)
    return a


def atom_by_id(i):
    return _atom_list[i]


# ---------------------------------------------------------------- polynomials: dict mono -> Fraction
# mono: tuple of (atom_id, exp), sorted by atom_id

def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            out.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


_square_rule = {}     # atom id -> poly (dict) for atom^2


class Budget(Exception):
    """An abstract value got too large to represent; the obligation is left undecided."""


MAX_TERMS = 3000


def padd(p, q, k=1):
    if not q:
        return p
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + c * k
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def _reduce_into(out, mono, coef):
    for idx, (a, e) in enumerate(mono):
        if e >= 2 and a in _square_rule:
            rest = mono[:idx] + (((a, e - 2),) if e > 2 else ()) + mono[idx + 1:]
            for m, c in _square_rule[a].items():
                _reduce_into(out, _mono_mul(rest, m), coef * c)
            return
    v = out.get(mono, 0) + coef
    if v:
        out[mono] = v
    else:
        out.pop(mono, None)


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > 400000:
        raise Budget('polynomial product too large')
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _reduce_into(out, _mono_mul(m1, m2), c1 * c2)
    if len(out) > MAX_TERMS:
        raise Budget('polynomial too large')
    return out


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def _mono_key(m):
    # graded-free lex order on atoms: compare as sparse vectors
    return tuple((-a, e) for a, e in m)


def _lead(p):
    return max(p, key=_mono_key)


def _mono_div(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pdiv_exact(p, q):
    """p / q if the division is exact (in the free polynomial ring, then checked in the quotient ring), else None"""
    if not p:
        return {}
    if len(q) == 1:
        (m, c), = q.items()
        out = {}
        for pm, pc in p.items():
            d = _mono_div(pm, m)
            if d is None:
                return None
            out[d] = pc / F(c)
        return out
    lq = _lead(q)
    cq = q[lq]
    rem = dict(p)
    out = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lr = _lead(rem)
        d = _mono_div(lr, lq)
        if d is None:
            return None
        c = rem[lr] / F(cq)
        out[d] = out.get(d, 0) + c
        rem = padd(rem, pmul({d: c}, q), -1)
    return out


def pkey(p):
    return tuple(sorted(p.items()))


class Num:
    """Immutable rational function"""
    __slots__ = ('n', 'd', '_key', '_hash')

    def __init__(self, n, d=()):
        self.n = n          # poly dict
        self.d = d          # tuple of (polykey, exp) sorted
        self._key = None
        self._hash = None

    @property
    def key(self):
        if self._key is None:
            self._key = (pkey(self.n), self.d)
        return self._key

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key)
        return self._hash

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, Num):
            return NotImplemented
        return self.key == other.key

    # --- structure
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and () in self.n))

    def const(self):
        """Fraction value if constant else None"""
        if self.d:
            return None
        if not self.n:
            return F(0)
        if len(self.n) == 1 and () in self.n:
            return F(self.n[()])
        return None

    def __repr__(self):
        return pretty(self)

    __str__ = __repr__


def _mono_str(m):
    return '*'.join(str(atom_by_id(a)) + ('^%d' % e if e != 1 else '') for a, e in m)


def _poly_str(items):
    out = []
    for m, c in items:
        c = F(c)
        if not m:
            s = str(c)
        elif c == 1:
            s = _mono_str(m)
        elif c == -1:
            s = '-' + _mono_str(m)
        else:
            s = '%s*%s' % (c, _mono_str(m))
        out.append(s)
    s = ' + '.join(out) if out else '0'
    return s.replace('+ -', '- ')


def pretty(x, limit=220):
    s = _poly_str(pkey(x.n))
    if x.d:
        s = '(%s)/(%s)' % (s, '*'.join('(%s)%s' % (_poly_str(k), '^%d' % e if e != 1 else '') for k, e in x.d))
    return s if len(s) <= limit else s[:limit] + '...'


def const(v):
    v = F(v)
    return Num({(): v} if v else {})


ZERO = const(0)
ONE = const(1)
HALF = const(F(1, 2))


def var(name, dom='real'):
    return Num({((_intern_atom('var', name, (), dom).id, 1),): F(1)})


PI = var('PI', 'pi')
_PI_ID = next(iter(PI.n))[0][0]


def opaque(key, dom='real'):
    return Num({((_intern_atom('opq', key, (), dom).id, 1),): F(1)})


def _norm_factor(p):
    """poly -> (unit, list of (polykey, exp)): monic factors, monomials split off"""
    # content monomial
    monos = list(p)
    common = dict(monos[0])
    for m in monos[1:]:
        dm = dict(m)
        for a in list(common):
            e = min(common[a], dm.get(a, 0))
            if e:
                common[a] = e
            else:
                del common[a]
        if not common:
            break
    factors = []
    if common:
        cm = tuple(sorted(common.items()))
        p = {_mono_div(m, cm): c for m, c in p.items()}
        for a, e in cm:
            factors.append((((((a, 1),), F(1)),), e))
    if len(p) == 1 and () in p:
        return F(p[()]), factors
    lead = _lead(p)
    unit = F(p[lead])
    p = {m: c / unit for m, c in p.items()}
    factors.append((pkey(p), 1))
    return unit, factors


def _pow_poly(k, e):
    p = dict(k)
    out = {(): F(1)}
    for _ in range(e):
        out = pmul(out, p)
    return out


def _mk(n, dd):
    """Build a Num from numerator poly and dict of factors, cancelling where the division is exact"""
    if not n:
        return ZERO
    if not dd:
        return Num(n)
    out = []
    for k, e in sorted(dd.items()):
        q = dict(k)
        while e > 0:
            r = pdiv_exact(n, q)
            if r is None:
                break
            n = r
            e -= 1
        if e:
            out.append((k, e))
    # sqrt atoms in denominators are kept; sqrt(p)^k handled through the square rule on whole factors
    return Num(n, tuple(out))


def _den_dict(x):
    return dict(x.d)


def add(a, b, k=1):
    if not a.d and not b.d:
        return Num(padd(a.n, b.n, k))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, e in db.items():
        l[f] = max(l.get(f, 0), e)
    na, nb = a.n, b.n
    for f, e in l.items():
        ea = e - da.get(f, 0)
        eb = e - db.get(f, 0)
        if ea:
            na = pmul(na, _pow_poly(f, ea))
        if eb:
            nb = pmul(nb, _pow_poly(f, eb))
    return _mk(padd(na, nb, k), l)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return Num(pscale(a.n, -1), a.d)


def mul(a, b):
    n = pmul(a.n, b.n)
    if not a.d and not b.d:
        return Num(n)
    l = dict(a.d)
    for f, e in b.d:
        l[f] = l.get(f, 0) + e
    # square rules on denominators: sqrt(p)^2 in a denominator becomes p
    for f in list(l):
        if l[f] >= 2 and len(f) == 1 and len(f[0][0]) == 1:
            aid = f[0][0][0][0]
            if aid in _square_rule and f[0][0][0][1] == 1:
                rep = _square_rule[aid]
                k = l[f] // 2
                l[f] -= 2 * k
                if not l[f]:
                    del l[f]
                unit, fs = _norm_factor(rep)
                n = pscale(n, F(1) / unit ** k)
                for g, e in fs:
                    l[g] = l.get(g, 0) + e * k
    return _mk(n, l)


def inv(a):
    if not a.n:
        raise ZeroDivisionError
    n = {(): F(1)}
    for f, e in a.d:
        n = pmul(n, _pow_poly(f, e))
    unit, fs = _norm_factor(a.n)
    l = {}
    for f, e in fs:
        l[f] = l.get(f, 0) + e
    return mul(Num(pscale(n, 1 / unit)), Num({(): F(1)}, tuple(sorted(l.items()))))


def div(a, b):
    cb = b.const()
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError
        return Num(pscale(a.n, 1 / cb), a.d)
    return mul(a, inv(b))


def powi(a, k):
    if k < 0:
        return inv(powi(a, -k))
    out = ONE
    for _ in range(k):
        out = mul(out, a)
    return out


def _fn(name, args, dom='real'):
    return Num({((_intern_atom('fn', name, tuple(args), dom).id, 1),): F(1)})


def single_atom(x):
    """(atom, coef) if x is coef*atom"""
    if x.d or len(x.n) != 1:
        return None
    (m, c), = x.n.items()
    if len(m) == 1 and m[0][1] == 1:
        return atom_by_id(m[0][0]), c
    return None


# ---------------------------------------------------------------- signs
POS, NEG, ZER = 1, 2, 4
ANY = 7
NONNEG = POS | ZER
NONPOS = NEG | ZER


def _flip(s):
    return (s & ZER) | (POS if s & NEG else 0) | (NEG if s & POS else 0)


def _smul(a, b):
    out = 0
    if (a | b) & ZER:
        out |= ZER if (a & ZER or b & ZER) else 0
    for x in (POS, NEG):
        for y in (POS, NEG):
            if a & x and b & y:
                out |= POS if x == y else NEG
    return out


def _sadd(a, b):
    out = 0
    for x in (POS, NEG, ZER):
        for y in (POS, NEG, ZER):
            if a & x and b & y:
                if x == ZER:
                    out |= y
                elif y == ZER or x == y:
                    out |= x
                else:
                    out |= ANY
    return out


def _atom_sign(a):
    if a.kind == 'fn':
        if a.name in ('sqrt', 'abs'):
            return NONNEG
        if a.name == 'max':
            s = 0
            ss = [sign(x) for x in a.args]
            if any(x == POS for x in ss):
                return POS
            if any(not x & NEG for x in ss):
                return NONNEG
            if all(x == NEG for x in ss):
                return NEG
            if all(not x & POS for x in ss):
                return NONPOS
            return ANY
        return ANY
    return {'pos': POS, 'posint': POS, 'nonneg': NONNEG, 'nonnegint': NONNEG, 'pi': POS, 'big': POS, 'nonzero': POS | NEG}.get(a.dom, ANY)


def _mono_sign(m, c):
    s = POS if c > 0 else NEG
    for a, e in m:
        sa = _atom_sign(atom_by_id(a))
        if e % 2 == 0:
            sa = POS if not sa & ZER else NONNEG
        s = _smul(s, sa)
        if s == ANY:
            return ANY
    return s


_sign_cache = {}


def sign(x, depth=3):
    """Set of possible signs (bitmask) of the number x, from the facts carried by its atoms"""
    c = x.const()
    if c is not None:
        return POS if c > 0 else NEG if c < 0 else ZER
    k = (x.key, depth)
    r = _sign_cache.get(k)
    if r is None:
        r = _sign(x, depth)
        _sign_cache[k] = r
    return r


def _sign(x, depth):
    s = _psign(x.n)
    if x.d:
        for k, e in x.d:
            sd = _psign(dict(k))
            if e % 2 == 0:
                sd = POS
            s = _smul(s, sd & ~ZER)
        return s
    if s != ANY or depth == 0:
        return s
    # max-atom reasoning: p = c*max{S} + rest
    for m, c in x.n.items():
        if len(m) == 1 and m[0][1] == 1:
            a = atom_by_id(m[0][0])
            if a.kind == 'fn' and a.name == 'max':
                rest = Num({k: v for k, v in x.n.items() if k != m})
                subs = [add(mul(const(c), y), rest) for y in a.args]
                ss = [sign(y, depth - 1) for y in subs]
                if c > 0:
                    if any(y == POS for y in ss):
                        return POS
                    if any(not y & NEG for y in ss):
                        return NONNEG
                    if all(y == NEG for y in ss):
                        return NEG
                    if all(not y & POS for y in ss):
                        return NONPOS
                else:
                    if any(y == NEG for y in ss):
                        return NEG
                    if any(not y & POS for y in ss):
                        return NONPOS
                    if all(y == POS for y in ss):
                        return POS
                    if all(not y & NEG for y in ss):
                        return NONNEG
            elif a.kind == 'fn' and a.name == 'abs':
                rest = Num({k: v for k, v in x.n.items() if k != m})
                ss = [sign(add(mul(const(c), y), rest), depth - 1) for y in (a.args[0], neg(a.args[0]))]
                if c > 0:
                    if any(y == POS for y in ss):
                        return POS
                    if any(not y & NEG for y in ss):
                        return NONNEG
                else:
                    if any(y == NEG for y in ss):
                        return NEG
                    if any(not y & POS for y in ss):
                        return NONPOS
    return s


def _psign(p):
    s = ZER
    for m, c in p.items():
        s = _sadd(s, _mono_sign(m, c))
        if s == ANY:
            t = _csign(p)
            if t == ANY:
                t = NONNEG if _psd(p) else NONPOS if _psd({k: -v for k, v in p.items()}) else ANY
            return t
    if s in (NONNEG, NONPOS):
        t = _csign(p)
        return t if t != ANY else s
    return s


def _psd(p, most=14):
    """a quadratic form in half-monomials that is a sum of squares (exact LDL^T); False means only: not shown"""
    basis, rest = [], []
    for m, c in p.items():
        if all(e % 2 == 0 for a, e in m):
            if c <= 0:
                return False
            basis.append(tuple((a, e // 2) for a, e in m))
        else:
            rest.append((m, c))
    n = len(basis)
    if not 2 <= n <= most or len(rest) > n * (n - 1) // 2:
        return False
    products = {}
    for i in range(n):
        for j in range(i):
            products.setdefault(_mono_mul(basis[i], basis[j]), (i, j))
    g = [[F(0)] * n for _ in range(n)]
    for i, h in enumerate(basis):
        g[i][i] = F(p[tuple((a, 2 * e) for a, e in h)])
    for m, c in rest:
        ij = products.get(m)
        if ij is None:
            return False
        i, j = ij
        g[i][j] = g[j][i] = F(c) / 2
    for k in range(n):
        d = g[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(g[k][j] for j in range(k + 1, n)):
                return False
            continue
        for i in range(k + 1, n):
            if g[i][k]:
                f = g[i][k] / d
                for j in range(k, n):
                    g[i][j] -= f * g[k][j]
    return True


_const_atoms = {}       # atom id -> float value for pi, sqrt(2), cos(pi/8) ..., None for atoms that are not constants


def const_atom(aid):
    if aid in _const_atoms:
        return _const_atoms[aid]
    v = None
    if aid == _PI_ID:
        v = math.pi
    else:
        a = atom_by_id(aid)
        if a.kind == 'fn' and a.name in ('sqrt', 'sin', 'cos'):
            args = [const_value(x) for x in a.args]
            if None not in args and (a.name != 'sqrt' or args[0] > 0):
                v = getattr(math, a.name)(args[0])
    _const_atoms[aid] = v
    return v


def const_value(x):
    """float value of a number without unknowns, or None"""
    out = []
    for p in [x.n] + [dict(k) for k, e in x.d]:
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                w = const_atom(a)
                if w is None:
                    return None
                v *= w ** e
            t += v
        out.append(t)
    v = out[0]
    for (k, e), d in zip(x.d, out[1:]):
        if abs(d) < 1e-9:
            return None
        v /= d ** e
    return v


def _csign(p):
    """sign of a sum after adding up coefficients like (sqrt(2)-1)"""
    groups, found = {}, False
    for m, c in p.items():
        v, rest = float(c), []
        for a, e in m:
            w = const_atom(a)
            if w is None:
                rest.append((a, e))
            else:
                v *= w ** e
                found = True
        groups.setdefault(tuple(rest), []).append(v)
    if not found:
        return ANY
    s = ZER
    for m, vs in groups.items():
        v = sum(vs)
        if abs(v) < 1e-9 * sum(abs(x) for x in vs):
            return ANY
        s = _sadd(s, _mono_sign(m, 1 if v > 0 else -1))
        if s == ANY:
            return ANY
    return s


# ---------------------------------------------------------------- functions
def floor(x):
    c = x.const()
    if c is not None:
        return const(math.floor(c))
    # pull out integer-valued additive part
    ip, rest = {}, {}
    if not x.d:
        for m, c in x.n.items():
            if F(c).denominator == 1 and all(is_int_atom(atom_by_id(a)) for a, e in m):
                ip[m] = c
            else:
                rest[m] = c
        if ip:
            if not rest:
                return x
            return add(Num(ip), floor(Num(rest)))
    return _fn('floor', (x,), 'int')


def is_int_atom(a):
    return a.dom in ('int', 'posint', 'nonnegint') or (a.kind == 'fn' and a.name in ('floor', 'trunc'))


def is_int(x):
    return not x.d and all(F(c).denominator == 1 and all(is_int_atom(atom_by_id(a)) for a, e in m) for m, c in x.n.items())


def trunc(x):
    c = x.const()
    if c is not None:
        return const(math.trunc(c))
    if is_int(x):
        return x
    return _fn('trunc', (x,), 'int')


def mod(a, b):
    cb = b.const()
    if cb == 0:
        raise ZeroDivisionError
    return sub(a, mul(b, floor(div(a, b))))


def floordiv(a, b):
    return floor(div(a, b))


def fabs(x):
    s = sign(x)
    if not s & NEG:
        return x
    if not s & POS:
        return neg(x)
    # canonical orientation
    if x.n and F(x.n[_lead(x.n)]) < 0:
        x = neg(x)
    r = _fn('abs', (x,))
    aid = next(iter(r.n))[0][0]
    if aid not in _square_rule and not x.d:
        try:
            _square_rule[aid] = pmul(x.n, x.n)
        except Budget:
            pass
    return r


def maxn(xs):
    """n-ary maximum, flattened, dominated arguments removed"""
    flat = []
    for x in xs:
        sa = single_atom(x)
        if sa and sa[1] == 1 and sa[0].kind == 'fn' and sa[0].name == 'max':
            flat.extend(sa[0].args)
        else:
            flat.append(x)
    uniq = []
    for x in flat:
        if x not in uniq:
            uniq.append(x)
    keep = []
    for i, x in enumerate(uniq):
        dom = False
        for j, y in enumerate(uniq):
            if i == j:
                continue
            s = sign(sub(x, y))
            if not s & POS and (s & NEG or i > j):
                dom = True
                break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    if len(keep) == 2 and not add(keep[0], keep[1]).n:
        return fabs(keep[0])
    keep.sort(key=lambda x: x.key)
    return _fn('max', tuple(keep))


def minn(xs):
    return neg(maxn([neg(x) for x in xs]))


def sqrt(x):
    c = x.const()
    if c is not None:
        if c < 0:
            raise ValueError('math domain error')
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(F(n, d))
        # sqrt(n/d) = k*sqrt(m)/d with m free of (small) squares
        m, k, p = c.numerator * c.denominator, 1, 2
        while p * p <= m and p < 1000:
            while m % (p * p) == 0:
                m //= p * p
                k *= p
            p += 1
        r = _fn('sqrt', (const(F(m)),))
        aid = next(iter(r.n))[0][0]
        if aid not in _square_rule:
            _square_rule[aid] = const(F(m)).n
        return mul(const(F(k, c.denominator)), r)
    if x.d:
        outer = ONE
        nn = Num(x.n)
        for k, e in x.d:
            f = Num(dict(k))
            # sqrt(n / f^e) = sqrt(n * f^(e%2)) / |f|^ceil(e/2)
            if e % 2:
                nn = mul(nn, f)
            outer = mul(outer, powi(fabs(f), (e + 1) // 2))
        return div(sqrt(nn), outer)
    # pull out square monomial content and perfect squares of single terms
    if len(x.n) == 1:
        (m, cc), = x.n.items()
        if all(e % 2 == 0 for a, e in m) and cc > 0:
            root = sqrt(const(cc))
            for a, e in m:
                root = mul(root, powi(fabs(Num({((a, 1),): F(1)})), e // 2))
            return root
    # normalise leading coefficient: sqrt(k*p) = sqrt(k)*sqrt(p) for rational k>0
    lead = F(x.n[_lead(x.n)])
    if lead > 0 and lead != 1:
        r = sqrt(const(lead))
        if r.const() is not None:
            return mul(r, sqrt(Num(pscale(x.n, 1 / lead))))
    # common monomial squares
    monos = list(x.n)
    if len(monos) > 1:
        common = dict(monos[0])
        for m in monos[1:]:
            dm = dict(m)
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items() if dm.get(a, 0)}
        sq = {a: e // 2 for a, e in common.items() if e >= 2}
        if sq:
            cm = tuple(sorted((a, 2 * e) for a, e in sq.items()))
            inner = Num({_mono_div(m, cm): c for m, c in x.n.items()})
            out = sqrt(inner)
            for a, e in sq.items():
                out = mul(out, powi(fabs(Num({((a, 1),): F(1)})), e))
            return out
    r = _fn('sqrt', (x,))
    aid = next(iter(r.n))[0][0]
    if aid not in _square_rule:
        _square_rule[aid] = x.n
    return r


HYPOT = {}      # sqrt atom -> numbers whose squares it sums: it is zero exactly when they all are


def hypot(*xs):
    s = ZERO
    for x in xs:
        s = add(s, mul(x, x))
    r = sqrt(s)
    sa = single_atom(r)
    if sa and sa[0].kind == 'fn' and sa[0].name == 'sqrt':
        HYPOT.setdefault(sa[0].id, xs)
    return r


def radians(x):
    return div(mul(x, PI), const(180))


def degrees(x):
    return div(mul(x, const(180)), PI)


def _angle_split(x):
    """x -> (list of monomial-terms, quarter turns k) after removing multiples of 2*PI; None when not splittable"""
    terms = []
    k = F(0)
    if x.d:
        return [x], 0
    for m, c in x.n.items():
        if m == ((_PI_ID, 1),):
            q = F(c) * 2
            whole = math.floor(q)
            k += whole
            frac = q - whole
            if frac:
                terms.append(Num({m: frac / 2}))
            continue
        ids = dict(m)
        if ids.get(_PI_ID) == 1:
            rest = tuple(t for t in m if t[0] != _PI_ID)
            if rest and (F(c) / 2).denominator == 1 and all(is_int_atom(atom_by_id(a)) for a, e in rest):
                continue                # 2*PI*integer
        terms.append(Num({m: c}))
    return terms, int(k) % 4


def _sc(term):
    """(sin, cos) atoms of one term"""
    sa = single_atom(term)
    if sa and sa[0].kind == 'fn' and sa[0].name == 'atan2' and sa[1] in (1, -1):
        y, x = sa[0].args
        h = hypot(x, y)
        if h.n:
            s, c = div(y, h), div(x, h)
            return (s if sa[1] == 1 else neg(s)), c
    sgn = 1
    if term.n and F(term.n[_lead(term.n)]) < 0:
        term = neg(term)
        sgn = -1
    if len(term.n) == 1 and not term.d:
        (m, q), = term.n.items()
        if m == ((_PI_ID, 1),):
            v = {F(1, 4): ((2, 2), (2, 2)), F(1, 6): ((1, 2), (3, 2)), F(1, 3): ((3, 2), (1, 2))}.get(F(q))
            if v:
                s, c = (div(sqrt(const(a)), const(b)) for a, b in v)
                return (s if sgn == 1 else neg(s)), c
    s = _fn('sin', (term,))
    c = _fn('cos', (term,))
    sid = next(iter(s.n))[0][0]
    cid = next(iter(c.n))[0][0]
    if sid not in _square_rule:
        _square_rule[sid] = {(): F(1), ((cid, 2),): F(-1)}
    return (s if sgn == 1 else neg(s)), c


def sincos(x):
    terms, k = _angle_split(x)
    if len(terms) > 3:
        terms = [functools_reduce_add(terms)]
    s, c = ZERO, ONE
    for t in terms:
        ts, tc = _sc(t)
        s, c = add(mul(s, tc), mul(c, ts)), sub(mul(c, tc), mul(s, ts))
    for _ in range(k):
        s, c = c, neg(s)
    return s, c


def functools_reduce_add(ts):
    out = ZERO
    for t in ts:
        out = add(out, t)
    return out


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x):
    if len(x.n) == 1 and not x.d:
        (m, q), = x.n.items()
        if m == ((_PI_ID, 1),):
            v = {F(1, 8): (2, -1), F(3, 8): (2, 1), F(1, 12): (-3, 2), F(5, 12): (3, 2)}.get(abs(F(q)))
            if v:
                r = add(mul(const(1 if v[0] > 0 else -1), sqrt(const(abs(v[0])))), const(v[1]))
                return r if q > 0 else neg(r)
    s, c = sincos(x)
    return div(s, c)


def atan2(y, x):
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None:
        if cy == 0 and cx > 0:
            return ZERO
        if cy == 0 and cx < 0:
            return PI
        if cx == 0 and cy > 0:
            return div(PI, const(2))
        if cx == 0 and cy < 0:
            return neg(div(PI, const(2)))
        if cx == 0 and cy == 0:
            return ZERO
    return _fn('atan2', (y, x))


def fround(x, nd):
    """round(x, nd)"""
    c = x.const()
    if c is not None:
        nc = nd.const() if nd is not None else F(0)
        if nc is not None:
            return const(round(c, int(nc))) if nd is not None else const(round(c))
    return _fn('round', (x, nd if nd is not None else ZERO))


def plain_input(x):
    """the atom when x is a free input itself"""
    if x.d or len(x.n) != 1:
        return None
    (m, c), = x.n.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = atom_by_id(m[0][0])
    return a if a.kind == 'var' else None


def generic(name, args, dom='real'):
    return _fn(name, tuple(args), dom)


# ---------------------------------------------------------------- evaluation of normal forms at a sample valuation
class Undef(Exception):
    pass


class Valuation:
    """Assignment of the input atoms.  Evaluates *normal forms* (never repository code)."""

    def __init__(self, rng, mode, fixed=None):
        self.rng = rng
        self.mode = mode
        self.vals = {_PI_ID: math.pi}
        self.fixed = fixed or {}
        self.bools = {}
        self.exact = True

    def sample(self, a):
        if a.kind == 'var' and a.name in self.fixed:
            return F(self.fixed[a.name])
        r = self.rng
        d = a.dom
        if d == 'posint':
            return F(r.randint(1, 4))
        if d == 'nonnegint':
            return F(r.randint(0, 4))
        if d == 'int':
            return F(r.randint(-3, 3))
        if d == 'unit':
            return F(r.choice([0, 1, F(1, 2), F(1, 4), F(3, 4)])) if self.mode == 0 else F(r.randint(1, 96), 97)
        if d == 'ang':
            return F(r.choice([0, 30, 90, 180, 270, -90, 360, 45, 400, -400, 720])) if self.mode == 0 else F(r.randint(-9000, 9000), 13)
        if d == 'big':
            return F(r.randint(1000, 4000))
        if self.mode == 0:      # small integers: ties and zeros are common
            v = F(r.choice([-2, -1, 0, 0, 1, 1, 2, 3]))
        else:
            v = F(r.randint(-400, 400), r.choice([3, 7, 11, 13]))
        if d == 'pos':
            v = abs(v) or F(1)
        elif d == 'nonneg':
            v = abs(v)
        elif d == 'nonzero':
            v = v or F(1)
        elif d == 'tiny':
            v = v / 10 ** 18
        return v

    def atom(self, aid):
        v = self.vals.get(aid)
        if v is not None:
            return v
        a = atom_by_id(aid)
        if a.kind in ('var', 'opq'):
            v = self.sample(a)
        else:
            args = [self.num(x) for x in a.args]
            v = self.call(a.name, args, a)
        self.vals[aid] = v
        return v

    def call(self, name, args, a):
        try:
            if name == 'max':
                return max(args)
            if name == 'abs':
                return abs(args[0])
            if name == 'floor':
                return F(math.floor(args[0] if isinstance(args[0], F) else args[0] + 1e-12))
            if name == 'trunc':
                return F(math.trunc(args[0] if isinstance(args[0], F) else args[0] + 1e-12 * (1 if args[0] > 0 else -1)))
            if name == 'round':
                nd = int(args[1])
                if isinstance(args[0], F):
                    return F(round(args[0], nd))
                return round(args[0], nd)
            if name == 'sqrt':
                v = args[0]
                if v < 0:
                    if v > -1e-9:
                        return 0.0
                    raise Undef('sqrt of negative')
                if isinstance(v, F):
                    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if n * n == v.numerator and d * d == v.denominator:
                        return F(n, d)
                return math.sqrt(v)
            if name == 'sin':
                return math.sin(args[0])
            if name == 'cos':
                return math.cos(args[0])
            if name == 'atan2':
                return math.atan2(args[0], args[1])
            if name in ('exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log2', 'log10'):
                return getattr(math, name)(args[0])
            if name == 'pow':
                v = float(args[0]) ** float(args[1])
                if isinstance(v, complex):
                    raise Undef('complex')
                return v
        except Undef:
            raise
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            raise Undef(str(e))
        # unknown function: a consistent pseudo-random value per argument tuple
        k = ('f', name, tuple(str(x) for x in args))
        if k not in self.bools:
            self.bools[k] = F(self.rng.randint(-300, 300), 7)
        return self.bools[k]

    def poly(self, items):
        tot = F(0)
        for m, c in items:
            v = c
            for a, e in m:
                x = self.atom(a)
                v = v * x ** e
            tot = tot + v
        return tot

    def num(self, x):
        v = self.poly(x.n.items())
        for k, e in x.d:
            d = self.poly(k)
            if (isinstance(d, F) and d == 0) or abs(d) < 1e-9:
                raise Undef('division by zero')
            v = v / d ** e
        return v

    def sign(self, x):
        v = self.num(x)
        if isinstance(v, F):
            return 0 if v == 0 else (1 if v > 0 else -1)
        if abs(v) < 1e-9:
            # floats this close to zero are ties of the real-valued formula up to rounding: refuse to decide
            if abs(v) < 1e-12:
                return 0
            raise Undef('near tie')
        return 1 if v > 0 else -1

    def bool(self, key):
        if key not in self.bools:
            self.bools[key] = self.rng.random() < 0.5
        return self.bools[key]


def close(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def atoms_of(x, acc=None):
    """All var/opq atoms of a number"""
    acc = set() if acc is None else acc
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        ids = set()
        for m in y.n:
            ids.update(a for a, e in m)
        for k, e in y.d:
            for m, c in k:
                ids.update(a for a, _ in m)
        for i in ids:
            if i in seen:
                continue
            seen.add(i)
            a = atom_by_id(i)
            if a.kind == 'fn':
                stack.extend(z for z in a.args if isinstance(z, Num))
            else:
                acc.add(a)
    return acc
