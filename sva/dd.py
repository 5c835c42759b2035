"""
Gated values.

A *gated value* is a leaf (an abstract value) or a hash-consed decision node over comparison atoms: the sign of an
algebraic normal form (three-way) or an opaque boolean (two-way).  This is the value part of gated SSA: a join of
two branches is one node, never two separately explored paths.
"""
from . import num as N
from .num import Num, Budget


class Leaf:
    __slots__ = ()


class Const(Leaf):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)

    def __eq__(self, o):
        return self is o or (isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v)

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))


TRUE, FALSE, NONE = Const(True), Const(False), Const(None)
NOTIMPL = Const(NotImplemented)
ELLIPSIS = Const(Ellipsis)


class Undef_(Leaf):
    __slots__ = ()

    def __repr__(self):
        return '<undefined>'


UNDEF = Undef_()


class Ite:
    __slots__ = ('atom', 'kids', 'h', '__weakref__')

    def __repr__(self):
        return show(self)


class DAtom:
    __slots__ = ('id', 'kind', 'arg')

    def __repr__(self):
        return 'sign(%s)' % self.arg if self.kind == 's' else 'b:%s' % (self.arg,)


_datoms = {}
_nodes = {}


def _datom(kind, arg):
    k = (kind, arg)
    a = _datoms.get(k)
    if a is None:
        a = DAtom()
        a.id, a.kind, a.arg = len(_datoms), kind, arg
        _datoms[k] = a
    return a


def nid(v):
    return id(v) if isinstance(v, Ite) else v


_budget = [0, 0]


def set_budget(n):
    _budget[0] = 0
    _budget[1] = n


def mk(atom, kids):
    k0 = kids[0]
    if all(k is k0 or (not isinstance(k, Ite) and not isinstance(k0, Ite) and k == k0) for k in kids[1:]):
        return k0
    if atom.kind == 's' and all(isinstance(k, Num) for k in kids):
        # max/min recognition:  neg->X pos->Y  with  Y-X = c*p
        x, z, y = kids
        d = N.sub(y, x)
        c = _ratio(d, atom.arg)
        if c is not None and (z == x or z == y):
            return N.maxn([x, y]) if c > 0 else N.minn([x, y])
    key = (atom.id,) + tuple(nid(k) for k in kids)
    n = _nodes.get(key)
    if n is None:
        _budget[0] += 1
        if _budget[1] and _budget[0] > _budget[1]:
            raise Budget('gated values too large')
        n = Ite()
        n.atom, n.kids = atom, tuple(kids)
        n.h = hash(key)
        _nodes[key] = n
    return n


def _ratio(a, b):
    """a/b if it is a rational constant"""
    if a.d or b.d or not b.n or len(a.n) != len(b.n):
        return None
    m = next(iter(b.n))
    if m not in a.n:
        return None
    c = N.F(a.n[m]) / N.F(b.n[m])
    for k, v in b.n.items():
        if a.n.get(k) != v * c:
            return None
    return c


def sign_ite(x, neg, zero, pos):
    """Gated value selected by the sign of the number x"""
    c = x.const()
    if c is not None:
        return neg if c < 0 else pos if c > 0 else zero
    facts = N.sign(x)
    p = x.n
    if x.d:
        y = Num(p)
        for k, e in x.d:
            if e % 2:
                y = N.mul(y, Num(dict(k)))
        p = y.n
        if y.d:
            p = x.n
    # drop even/positive monomial content, normalise leading coefficient
    unit, fs = N._norm_factor(p)
    keep = N.ONE
    s = 1 if unit > 0 else -1
    nonzero_content = None
    for k, e in fs:
        f = Num(dict(k))
        sg = N.sign(f)
        if sg == N.POS:
            continue
        if sg == N.NEG:
            if e % 2:
                s = -s
            continue
        keep = N.mul(keep, N.powi(f, 1 if e % 2 else 2))
    if keep.const() is not None:
        return pos if s > 0 else neg
    sa = N.single_atom(keep)
    if sa and sa[0].kind == 'fn' and sa[0].name == 'sqrt':
        # sqrt(q) is zero exactly when q is
        xs = N.HYPOT.get(sa[0].id)
        if xs:
            v = pos if s > 0 else neg
            r = zero
            for x in reversed(xs):
                r = sign_ite(x, v, r, v)
            return r
        return sign_ite(sa[0].args[0], zero, zero, pos if s > 0 else neg)
    if sa and sa[0].kind == 'fn' and sa[0].name == 'abs':
        v = pos if s > 0 else neg
        return sign_ite(sa[0].args[0], v, zero, v)
    if s < 0:
        neg, pos = pos, neg
        facts = N._flip(facts)
    if not keep.d and len(keep.n) == 2 and () in keep.n:
        # c + a*sqrt(q) has the sign of a*(q - (c/a)^2) when a and c differ in sign, and otherwise that of c
        c = keep.n[()]
        (m, a), = [(m, v) for m, v in keep.n.items() if m]
        sq = N.atom_by_id(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if sq is not None and sq.kind == 'fn' and sq.name == 'sqrt':
            if (a > 0) == (c > 0):
                return pos if c > 0 else neg
            q = N.sub(sq.args[0], N.const((c / a) ** 2))
            return sign_ite(q, neg, zero, pos) if a > 0 else sign_ite(q, pos, zero, neg)
    if facts == N.POS:
        return pos
    if facts == N.NEG:
        return neg
    if facts == N.ZER:
        return zero
    if not facts & N.NEG:
        neg = zero
    if not facts & N.POS:
        pos = zero
    if not facts & N.ZER:
        zero = pos
    atom = _datom('s', keep)
    return ite3(atom, neg, zero, pos)


def ite3(atom, *kids):
    """node with arbitrary (possibly higher-ordered) gated kids"""
    if all(not isinstance(k, Ite) or k.atom.id > atom.id for k in kids):
        return mk(atom, kids)
    sel = mk(atom, tuple(Const(i) for i in range(len(kids))))
    return apply(lambda s, *ks: ks[s.v], sel, *kids)


def bool_ite(key, f, t):
    return ite3(_datom('b', key), f, t)


def bvar(key):
    return bool_ite(key, FALSE, TRUE)


def apply(f, *args):
    """Lift the leaf function f (which may return gated values) over gated arguments"""
    if not any(isinstance(a, Ite) for a in args):
        return f(*args)
    memo = {}

    def rec(args):
        top = None
        for a in args:
            if isinstance(a, Ite) and (top is None or a.atom.id < top.id):
                top = a.atom
        if top is None:
            return f(*args)
        key = tuple(nid(a) for a in args)
        r = memo.get(key)
        if r is None:
            n = 3 if top.kind == 's' else 2
            kids = [rec(tuple(a.kids[i] if isinstance(a, Ite) and a.atom is top else a for a in args)) for i in range(n)]
            r = ite3(top, *kids)
            memo[key] = r
            if len(memo) > 20000:
                raise Budget('gated product too large')
        return r
    return rec(tuple(args))


_and_memo = {}


def AND(a, b):
    if a is FALSE or b is FALSE or a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a is b:
        return a
    k = (id(a), id(b))
    r = _and_memo.get(k)
    if r is None:
        r = apply(lambda x, y: TRUE if x.v and y.v else FALSE, a, b)
        _and_memo[k] = r
        _keep.append((a, b))
    return r


_keep = []


def NOT(a):
    return apply(lambda x: FALSE if x.v else TRUE, a)


def OR(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a is b:
        return a
    return apply(lambda x, y: TRUE if x.v or y.v else FALSE, a, b)


def ite(c, a, b):
    """if c then a else b; c is a gated boolean"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b):
        return a
    return apply(lambda x, y, z: y if x.v else z, c, a, b)


_DEAD = object()


def restrict(v, care):
    """Simplify v on the set `care` (gated boolean); None if care is FALSE"""
    if care == TRUE or not isinstance(v, Ite):
        return None if care == FALSE else v
    if care == FALSE:
        return None
    memo = {}

    def rec(v, c):
        if c == FALSE:
            return None
        if not isinstance(v, Ite) or c == TRUE:
            return v
        key = (id(v), id(c))
        if key in memo:
            return memo[key]
        top = v.atom
        if isinstance(c, Ite) and c.atom.id < top.id:
            rs = [rec(v, k) for k in c.kids]
            live = [r for r in rs if r is not None]
            if all(same(r, live[0]) for r in live[1:]):
                out = live[0]
            else:
                # the care set's own atom matters only through pruning: quantify it away
                care2 = FALSE
                for k in c.kids:
                    care2 = OR(care2, k)
                out = rec(v, care2)
        else:
            ck = c.kids if isinstance(c, Ite) and c.atom is top else (c,) * len(v.kids)
            rs = [rec(x, y) for x, y in zip(v.kids, ck)]
            live = [r for r in rs if r is not None]
            if not live:
                out = None
            else:
                rs = [live[0] if r is None else r for r in rs]
                if len(rs) == 3 and ck[0] == FALSE and ck[2] != FALSE:
                    pass
                out = ite3(top, *rs)
        memo[key] = out
        return out
    return rec(v, care)


def same(a, b):
    return a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b)


def leaves(v):
    """Distinct leaves of a gated value"""
    if not isinstance(v, Ite):
        return [v]
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Ite):
            if id(x) in seen:
                continue
            seen.add(id(x))
            stack.extend(reversed(x.kids))
        elif x not in seen:
            seen.add(x)
            out.append(x)
    return out


def guard_of(v, leaf):
    return apply(lambda x: TRUE if x == leaf else FALSE, v)


def evalv(v, val):
    """Follow the decision nodes under a valuation; returns the leaf"""
    while isinstance(v, Ite):
        if v.atom.kind == 's':
            v = v.kids[val.sign(v.atom.arg) + 1]
        else:
            v = v.kids[1 if eval_atom_bool(v.atom.arg, val) else 0]
    return v


def eval_atom_bool(key, val):
    return val.bool(key)


def atoms(v, acc=None):
    acc = set() if acc is None else acc
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if isinstance(x, Ite) and id(x) not in seen:
            seen.add(id(x))
            acc.add(x.atom)
            stack.extend(x.kids)
    return acc


def show(v, depth=3):
    if not isinstance(v, Ite):
        return str(v)
    if depth == 0:
        return '...'
    if v.atom.kind == 's':
        names = ('<0', '==0', '>0')
        p = str(v.atom.arg)
    else:
        names = ('False', 'True')
        p = str(v.atom.arg)
    return '{%s}' % '; '.join('%s%s: %s' % (p if i == 0 else '', n if v.atom.kind == 's' else '=' + n, show(k, depth - 1))
                              for i, (n, k) in enumerate(zip(names, v.kids)))
