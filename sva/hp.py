"""High-precision evaluation of normal forms (exact rationals; irrational values to ~70 digits), used only to decide
whether a *formula* the analysis extracted can be non-zero / true.  No repository code is evaluated."""
import math
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction as F

from . import num as N
from .num import Valuation, Undef

S = 10 ** 70
PI = F(31415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821, 10 ** 103)
ZERO_EPS = F(1, 10 ** 40)


def rnd(v):
    return F(round(v * S), S)


def sqrt(v):
    if v < 0:
        if v > -ZERO_EPS:
            return F(0)
        raise Undef('sqrt of negative')
    n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator:
        return F(n, d)
    return F(math.isqrt(v.numerator * S * S // v.denominator), S)


def _sin_series(x):
    tot, term, k = F(0), x, 1
    x2 = rnd(x * x)
    while abs(term) > F(1, S):
        tot += term
        term = rnd(-term * x2 / ((k + 1) * (k + 2)))
        k += 2
    return tot


def sin(x):
    k = round(x / (2 * PI))
    x = rnd(x - 2 * PI * k)
    return _sin_series(x)


def cos(x):
    return sin(x + PI / 2)


def atan(x):
    if abs(x) > 1:
        return (PI / 2 if x > 0 else -PI / 2) - atan(1 / x)
    n = 0
    while abs(x) > F(1, 10):
        x = rnd(x / (1 + sqrt(1 + x * x)))
        n += 1
    tot, term, k = F(0), x, 1
    x2 = rnd(x * x)
    while abs(term) > F(1, S):
        tot += term / k
        term = rnd(-term * x2)
        k += 2
    return rnd(tot) * 2 ** n


def atan2(y, x):
    if abs(x) < ZERO_EPS and abs(y) < ZERO_EPS:
        return F(0)
    if x > ZERO_EPS:
        return atan(y / x)
    if x < -ZERO_EPS:
        return atan(y / x) + (PI if y >= 0 else -PI)
    return PI / 2 if y > 0 else -PI / 2


def floor(v):
    n = round(v)
    if abs(v - n) < ZERO_EPS:
        return F(n)
    return F(math.floor(v))


FAR_DOMAINS = (None, 'real', 'pos', 'nonneg', 'nonzero', 'ang')


class HPVal(Valuation):
    """Assignment of the free inputs.  `trusted` turns False when a value had to be invented for something that is not
    an input (an unmodelled external function, an opaque predicate): such a valuation proves nothing."""

    def __init__(self, rng, mode, fixed=None, pool=(), far=None, near=None):
        self.far = far
        self.near = near
        self.seen = {}
        super().__init__(rng, mode, fixed)
        self.vals = {N._PI_ID: PI}
        self.trusted = True
        self.why = ''
        self.pool = list(pool)
        self.words = {}

    def distrust(self, why):
        if self.trusted:
            self.trusted, self.why = False, why

    def sample(self, a):
        if a.kind == 'opq' and a.name and a.name[0] == 'read back':
            # a number written with a lossy format and read again
            x = self.num(a.name[2])
            f = float(x)
            try:
                t = a.name[1] % f if a.name[1].startswith('%') else format(f, a.name[1])
                back = float(t)
            except (ValueError, TypeError):
                raise Undef('format %s' % (a.name[1],))
            return x if back == f else F(back)
        if a.kind == 'opq':
            self.distrust('opaque number %s' % (a.name,))
        v = super().sample(a)
        if self.near and a.kind == 'var' and a.dom in FAR_DOMAINS:
            # values that are almost, but not quite, those of other inputs (or zero)
            r = self.rng
            earlier = self.seen.setdefault(a.dom, [])
            if earlier and r.random() < 0.7:
                v = r.choice(earlier)
                if r.random() < 0.6:
                    v = v * (1 + self.near * r.choice((1, -1)))
            elif a.dom == 'real' and r.random() < 0.3:
                v = self.near * r.choice((0, 1, 1, -1))
            earlier.append(v)
            return v
        if self.far and a.kind == 'var' and a.dom in FAR_DOMAINS:
            scale, marks = self.far
            r = self.rng
            if a.dom == 'ang':
                return v * 1000 if scale > 1 and r.random() < 0.5 else v
            if marks and r.random() < 0.5:
                m = r.choice(marks)
                m = r.choice((m, m / 2, m * 2, m + 1, m * 1000, m / 10))
                return m if v >= 0 else -m
            if r.random() < 0.7:
                v = v * scale
        return v

    def call(self, name, args, a):
        if name == 'max':
            return max(args)
        if name == 'abs':
            return abs(args[0])
        if name == 'floor':
            return floor(args[0])
        if name == 'trunc':
            return floor(args[0]) if args[0] >= 0 else -floor(-args[0])
        if name == 'round':
            nd = int(args[1])
            v = args[0] * F(10) ** nd
            n = round(v * 2)
            if abs(v * 2 - n) < ZERO_EPS and n % 2:
                if v * 2 != n or nd:
                    raise Undef('rounding tie')
            return F(round(v)) / F(10) ** nd
        if name == 'sqrt':
            return sqrt(args[0])
        if name == 'sin':
            return sin(args[0])
        if name == 'cos':
            return cos(args[0])
        if name == 'atan2':
            return atan2(args[0], args[1])
        if name == 'pow':
            if args[1].denominator == 1 and abs(args[1]) < 50 and (args[0] or args[1] > 0):
                return args[0] ** int(args[1])
            try:
                v = float(args[0]) ** float(args[1])
            except (OverflowError, ZeroDivisionError):
                raise Undef('pow')
            if isinstance(v, complex):
                raise Undef('complex')
            self.distrust('low precision pow')
            return F(v)
        if name in ('exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log2', 'log10'):
            self.distrust('low precision ' + name)
            try:
                return F(getattr(math, name)(float(args[0])))
            except (ValueError, OverflowError):
                raise Undef(name)
        if name.startswith('interp'):
            n = (len(args) - 1) // 2
            t, xs, ys = args[0], args[1:1 + n], args[1 + n:]
            if any(xs[i] > xs[i + 1] for i in range(n - 1)):
                raise Undef('np.interp needs increasing abscissae')
            if t <= xs[0]:
                return ys[0]
            if t >= xs[-1]:
                return ys[-1]
            for i in range(n - 1):
                if xs[i] <= t <= xs[i + 1]:
                    if xs[i] == xs[i + 1]:
                        continue
                    return ys[i] + (ys[i + 1] - ys[i]) * (t - xs[i]) / (xs[i + 1] - xs[i])
            raise Undef('interp')
        if name.startswith('rgi:'):
            return self.grid(name, args)
        if name.startswith('u:'):
            k = ('f', name, tuple(args))
            if k not in self.bools:
                self.bools[k] = F(self.rng.randint(-300, 300), 7) if self.mode else F(self.rng.randint(-2, 3))
            return self.bools[k]
        self.distrust('unmodelled function %s' % name)
        k = ('f', name, tuple(args))
        if k not in self.bools:
            self.bools[k] = F(self.rng.randint(-300, 300), 7)
        return self.bools[k]

    def grid(self, name, args):
        """scipy's RegularGridInterpolator on a plane grid: bilinear, extrapolating when told to"""
        dims, opts = name[4:].split(':', 1)
        opts, which = opts.rsplit(':', 1)
        dims = [int(x) for x in dims.split(',')]
        if len(dims) != 2 or 'method' in opts and "'linear'" not in opts and 'linear' not in opts:
            self.distrust('interpolation options')
            return F(0)
        nx, ny = dims
        xs, ys, p = args[:nx], args[nx:nx + ny], args[nx + ny:]
        vals = [F(k == int(which)) for k in range(nx * ny)]
        if any(a >= b for c in (xs, ys) for a, b in zip(c, c[1:])):
            raise Undef('grid coordinates must increase')
        def cell(c, v):
            i = 0
            while i < len(c) - 2 and v > c[i + 1]:
                i += 1
            return i, (v - c[i]) / (c[i + 1] - c[i])
        i, u = cell(xs, p[0])
        j, w = cell(ys, p[1])
        if not (0 <= u <= 1 and 0 <= w <= 1) and 'fill_value' not in opts:
            raise Undef('outside the grid')
        g = lambda a, b: vals[a * ny + b]
        return (1 - u) * (1 - w) * g(i, j) + u * (1 - w) * g(i + 1, j) + (1 - u) * w * g(i, j + 1) + u * w * g(i + 1, j + 1)

    def num(self, x):
        v = self.poly(x.n.items())
        for k, e in x.d:
            d = self.poly(k)
            if abs(d) < ZERO_EPS:
                raise Undef('division by zero')
            v = v / d ** e
        if v.denominator.bit_length() > 1200:
            v = F(round(v * S * S), S * S)
        return v

    def sign(self, x):
        v = self.num(x)
        if abs(v) < ZERO_EPS:
            return 0
        return 1 if v > 0 else -1

    # -------------------------------------------------------------- strings
    def word(self, name):
        if name not in self.words:
            r = self.rng.random()
            if self.pool and r < 0.5:
                self.words[name] = self.rng.choice(self.pool)
            elif self.words and r < 0.7:
                self.words[name] = self.rng.choice(sorted(self.words.values()))
            else:
                self.words[name] = 'w%s' % name
        return self.words[name]

    def text(self, s):
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == 'sym':
                out.append(self.word(p[1]))
            elif p[0] == 'num':
                v = self.num(p[2])
                if p[1] == '':
                    out.append(str(int(v)) if v.denominator == 1 else '%s' % float(v))
                elif p[1].startswith('%'):
                    out.append(p[1] % (int(v) if p[1][-1] in 'xXo' else float(v)))
                else:
                    out.append(format(float(v), p[1]))
            elif p[0] == 'reprstr':
                out.append(repr(self.text(p[1])))
            else:
                self.distrust('opaque text')
                out.append('<%r>' % (p,))
        return ''.join(out)

    def bool(self, key):
        if key in self.bools:
            return self.bools[key]
        k = key[0]
        if k == 'streq':
            v = self.text(key[1]) == self.text(key[2])
        elif k == 'starts':
            l, x = self.text(key[2]), self.text(key[3])
            v = l.endswith(x) if key[1] else l.startswith(x)
        elif k == 'isint':
            v = self.num(key[1]).denominator == 1 and self.rng.random() < 0.7
        else:
            if k not in ('flag', 'exc-taken', 'excmatch'):
                self.distrust('opaque condition %s' % (key,))
            v = self.rng.random() < 0.5
        self.bools[key] = v
        return v


def close(a, b):
    return abs(a - b) < ZERO_EPS
