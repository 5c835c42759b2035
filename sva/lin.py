"""
Emptiness of a decision diagram in the polyhedra domain.

Each way of reaching TRUE in the diagram of an obligation's negation is a conjunction of sign facts about normal forms.
Monomials are read as independent unknowns (a relaxation), known facts about atoms (domains, |x| >= x, max{..} >= each
argument, sqrt >= 0, floor) are added, and the conjunction is projected away by Gaussian elimination and
Fourier-Motzkin.  If the projection is empty for every way, the obligation holds.  Anything else is left undecided.
"""
import time
from fractions import Fraction as F

from . import dd
from . import num as N


class GiveUp(Exception):
    pass


# constraint: (dict mono->coef, rel) with rel '>' or '>=' or '=' ; constant under mono ()

def _lin(p):
    return {m: F(c) for m, c in p.items()}


def _scale(p):
    """normalise so that equal constraints coincide"""
    for m in sorted(p):
        k = abs(p[m])
        if k != 1:
            return {x: c / k for x, c in p.items()}
        return p
    return p


class System:
    def __init__(self, cons, deadline, cap):
        self.deadline, self.cap = deadline, cap
        self.eqs, self.ineqs = [], {}
        self.empty = False
        for p, rel in cons:
            self.put(p, rel)
            if self.empty:
                return

    def put(self, p, rel):
        p = {m: c for m, c in p.items() if c}
        if not [m for m in p if m]:
            c = p.get((), 0)
            if (rel == '=' and c != 0) or (rel == '>' and c <= 0) or (rel == '>=' and c < 0):
                self.empty = True
            return
        if rel == '=':
            self.eqs.append(p)
            return
        # key: direction; keep the tightest constant
        body = {m: c for m, c in p.items() if m}
        k = abs(body[min(body)])
        body = {m: c / k for m, c in body.items()}
        c = p.get((), F(0)) / k
        key = tuple(sorted(body.items()))
        old = self.ineqs.get(key)
        if old is None or c < old[0] or (c == old[0] and rel == '>'):
            self.ineqs[key] = (c, rel)

    def solve(self):
        """True when the system is shown empty"""
        while self.eqs and not self.empty:
            e = self.eqs.pop()
            ms = [m for m in e if m]
            if not ms:
                continue
            v = max(ms, key=lambda m: (sum(x for _, x in m), m))
            cv = e[v]
            sub = {m: -c / cv for m, c in e.items() if m != v}

            def rep(p):
                c = p.pop(v, None)
                if c:
                    for m, k in sub.items():
                        p[m] = p.get(m, 0) + c * k
                return p
            eqs, self.eqs = self.eqs, []
            ineqs, self.ineqs = self.ineqs, {}
            for p in eqs:
                self.put(rep(dict(p)), '=')
            for body, (c, rel) in ineqs.items():
                p = dict(body)
                p[()] = c
                self.put(rep(p), rel)
        while not self.empty:
            if time.time() > self.deadline:
                raise GiveUp('time')
            # opposite pair check is implied by elimination; choose the cheapest variable
            occ = {}
            for body in self.ineqs:
                for m, c in body:
                    lo, hi = occ.get(m, (0, 0))
                    occ[m] = (lo + 1, hi) if c > 0 else (lo, hi + 1)
            if not occ:
                return False
            v = min(occ, key=lambda m: (occ[m][0] * occ[m][1] - occ[m][0] - occ[m][1], m))
            lows, highs, rest = [], [], {}
            for body, (c, rel) in self.ineqs.items():
                d = dict(body)
                if v in d:
                    d[()] = c
                    (lows if d[v] > 0 else highs).append((d, rel))
                else:
                    rest[body] = (c, rel)
            if len(rest) + len(lows) * len(highs) > self.cap:
                raise GiveUp('size')
            self.ineqs = rest
            for l, rl in lows:
                for h, rh in highs:
                    a, b = -h[v], l[v]
                    p = {m: c * a for m, c in l.items() if m != v}
                    for m, c in h.items():
                        if m != v:
                            p[m] = p.get(m, 0) + c * b
                    self.put(p, '>' if '>' in (rl, rh) and (rl == '>' or rh == '>') else '>=')
                    if self.empty:
                        return True
        return True


def _sgn_of_mono(m):
    return N._mono_sign(m, 1)


def _facts(cons):
    """domain facts for every monomial that occurs; and the alternatives of max/abs atoms"""
    monos, out, done_atoms = set(), [], set()
    work = [m for p, _ in cons for m in p if m]
    while work:
        m = work.pop()
        if m in monos:
            continue
        monos.add(m)
        s = _sgn_of_mono(m)
        one = {m: F(1)}
        if s == N.POS:
            out.append((one, '>'))
        elif s == N.NONNEG:
            out.append((one, '>='))
        elif s == N.NEG:
            out.append(({m: F(-1)}, '>'))
        elif s == N.NONPOS:
            out.append(({m: F(-1)}, '>='))
        if len(m) == 1 and m[0][1] == 1:
            a = N.atom_by_id(m[0][0])
            if a.id in done_atoms:
                continue
            done_atoms.add(a.id)
            if a.dom == 'unit':
                out.append(({m: F(-1), (): F(1)}, '>='))
                out.append(({m: F(1)}, '>='))
            if a.dom in ('posint',):
                out.append(({m: F(1), (): F(-1)}, '>='))
            if a.name == 'PI' and a.kind == 'var':
                out.append(({m: F(1), (): F(-3)}, '>'))
                out.append(({m: F(-1), (): F(4)}, '>'))
            if a.kind == 'fn':
                new = []
                if a.name in ('sin', 'cos'):
                    new += [({m: F(1), (): F(1)}, '>='), ({m: F(-1), (): F(1)}, '>=')]
                if a.name == 'floor' and not a.args[0].d:
                    x = _lin(a.args[0].n)
                    p = dict(x)
                    p[m] = p.get(m, 0) - 1
                    new.append((p, '>='))
                    q = {k: -c for k, c in x.items()}
                    q[m] = q.get(m, 0) + 1
                    q[()] = q.get((), 0) + 1
                    new.append((q, '>'))
                if a.name in ('max', 'abs'):
                    args = a.args if a.name == 'max' else (a.args[0], N.neg(a.args[0]))
                    for x in args:
                        if x.d:
                            continue
                        p = {k: -c for k, c in _lin(x.n).items()}
                        p[m] = p.get(m, 0) + 1
                        new.append((p, '>='))
                out += new
                for p, _ in new:
                    work.extend(k for k in p if k)
    return out, monos


def _choices(monos):
    """max/abs atoms to case-split on"""
    ids = set()
    for m in monos:
        for a, e in m:
            at = N.atom_by_id(a)
            if at.kind == 'fn' and at.name in ('max', 'abs'):
                ids.add(a)
    return sorted(ids, reverse=True)     # outermost first: arguments are older than the atom


def _subst_atom(p, aid, q):
    out = {}
    for m, c in p.items():
        e = dict(m).get(aid, 0)
        if not e:
            out[m] = out.get(m, 0) + c
            continue
        t = {tuple(x for x in m if x[0] != aid): F(c)}
        for _ in range(e):
            t = N.pmul(t, q)
        for k, v in t.items():
            out[k] = out.get(k, 0) + v
    return {m: c for m, c in out.items() if c}


def conj_empty(cons, deadline, cap=600, depth=12):
    facts, monos = _facts(cons)
    allc = cons + facts
    if System(allc, deadline, cap).solve():
        return True
    # products: equalities times unknowns, pairs of nonnegative facts
    nonlin = {m for m in monos if sum(e for _, e in m) > 1}
    if nonlin:
        vs = sorted({a for m in nonlin for a, e in m})
        extra = []
        if len(vs) <= 8:
            for p, rel in cons:
                if rel == '=' and max(sum(e for _, e in m) for m in p) <= 2:
                    for a in vs:
                        extra.append((N.pmul(p, {((a, 1),): F(1)}), '='))
            ine = [c for c in cons if c[1] != '=' and max(sum(e for _, e in m) for m in c[0]) == 1][:12]
            pos = [({((a, 1),): F(1)}, '>=') for a in vs if not N._atom_sign(N.atom_by_id(a)) & N.NEG]
            pool = ine + pos
            for i, (p, r) in enumerate(pool):
                for q, r2 in pool[i:]:
                    extra.append((N.pmul(p, q), '>' if r == r2 == '>' else '>='))
        if extra and len(extra) < 150:
            f2, _ = _facts(extra)
            try:
                if System(allc + extra + f2, deadline, cap * 2).solve():
                    return True
            except GiveUp:
                pass
    if depth <= 0:
        return False
    for aid in _choices(monos):
        a = N.atom_by_id(aid)
        args = a.args if a.name == 'max' else (a.args[0], N.neg(a.args[0]))
        if any(x.d for x in args):
            continue
        for i, x in enumerate(args):
            sub = [(_subst_atom(p, aid, x.n), rel) for p, rel in cons]
            for j, y in enumerate(args):
                if j != i:
                    sub.append((_lin(N.sub(x, y).n), '>='))
            if any(not p and rel == '>' for p, rel in sub):
                continue
            sub = [(p, r) for p, r in sub if p]
            if not conj_empty(sub, deadline, cap, depth - 1):
                return False
        return True
    return False


def empty(bad, seconds=4.0, max_paths=4000):
    """True when no valuation can reach TRUE in the diagram"""
    deadline = time.time() + seconds
    count = [0]

    def rec(v, cons):
        if not isinstance(v, dd.Ite):
            if v == dd.FALSE:
                return True
            count[0] += 1
            if count[0] > max_paths:
                raise GiveUp('paths')
            return conj_empty(cons, deadline)
        if v.atom.kind != 's':
            return all(rec(k, cons) for k in set_(v.kids))
        x = v.atom.arg
        p = None if x.d else _lin(x.n)
        for i, k in enumerate(v.kids):
            if k == dd.FALSE:
                continue
            c = cons
            if p is not None:
                c = cons + [(p, '=') if i == 1 else (p, '>') if i == 2 else ({m: -q for m, q in p.items()}, '>')]
                if isinstance(k, dd.Ite) and len(c) > 1:
                    count[0] += 1
                    if count[0] > max_paths:
                        raise GiveUp('paths')
                    f, _ = _facts(c)
                    if System(c + f, deadline, 300).solve():
                        continue
            if not rec(k, c):
                return False
        return True

    def set_(kids):
        out = []
        for k in kids:
            if not any(k is o for o in out):
                out.append(k)
        return out
    try:
        return rec(bad, [])
    except (GiveUp, N.Budget, RecursionError):
        return False
