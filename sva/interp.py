"""
The abstract interpreter: an interprocedural, context-sensitive value-flow analysis over the syntax tree of the
analysed modules.  One abstract state per program point; branches are joined into gated values (dd.py) at merge
points, both for locals and for every heap field.  No input is chosen and no repository code is executed.
"""
import ast
import builtins
import os
import re
from fractions import Fraction

from . import num as N
from . import dd
from .dd import (TRUE, FALSE, NONE, NOTIMPL, UNDEF, Const, Ite, AND, OR, NOT, ite, restrict, leaves, guard_of, apply)
from .num import Num, Budget
from .values import *

ROOT = '/repo'


class Unsupported(Exception):
    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.where = where


class AnchorMissing(Exception):
    """A public entry point named by a rule no longer exists: the analysis is broken, not the property"""


class DeadPath(Exception):
    pass


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def fork(self, cond):
        return State(dict(self.heap), AND(self.pc, cond))

    def become(self, other):
        self.heap, self.pc = other.heap, other.pc

    @property
    def dead(self):
        return self.pc == FALSE


class Exit:
    __slots__ = ('pc', 'heap', 'val', 'where', 'may')

    def __init__(self, st, val=None, where=None, may=False):
        self.pc, self.heap, self.val, self.where, self.may = st.pc, dict(st.heap), val, where, may

    def state(self):
        return State(dict(self.heap), self.pc)

    def with_state(self, st):
        e = Exit(st, self.val, self.where, self.may)
        return e


class Ctx:
    __slots__ = ('ret', 'exc', 'brk', 'cnt', 'foreign')

    def __init__(self, ret=None, exc=None, brk=None, cnt=None, foreign=None):
        self.ret = [] if ret is None else ret
        self.exc = [] if exc is None else exc
        self.brk = [] if brk is None else brk
        self.cnt = [] if cnt is None else cnt
        self.foreign = [] if foreign is None else foreign    # (target list, Exit, consumer frame)


class FuncInfo:
    __slots__ = ('node', 'name', 'qualname', 'module', 'locals', 'is_gen', 'cls', 'abstract', 'args', 'globals_', 'nonlocals',
                 'has_closure')

    def __repr__(self):
        return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qualname)


class Frame:
    __slots__ = ('info', 'module', 'env', 'scopes', 'ctx', 'self_leaf', 'handler', 'cls')

    def __init__(self, info, module, env, scopes, ctx, self_leaf=None, handler=None, cls=None):
        self.info, self.module, self.env, self.scopes, self.ctx = info, module, env, scopes, ctx
        self.self_leaf, self.handler, self.cls = self_leaf, handler, cls


class Module:
    def __init__(self, name, path, relpath):
        self.name, self.path, self.relpath = name, path, relpath
        self.oid = None
        self.tree = None


def scan_locals(node):
    """Names bound in this function body (not in nested scopes), plus global/nonlocal declarations"""
    bound, glob, nonl = set(), set(), set()
    gen = [False]
    closure = [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            bound.add(n.name)
            closure[0] = True
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            closure[0] = True
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
                for c in g.ifs:
                    walrus(c)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    walrus(getattr(n, f))
            for sub in ast.walk(n):
                if isinstance(sub, (ast.Yield, ast.YieldFrom)):
                    gen[0] = True
                if isinstance(sub, ast.Lambda):
                    closure[0] = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bound.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.MatchAs) and n.name:
            bound.add(n.name)
        if isinstance(n, ast.MatchStar) and n.name:
            bound.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    def walrus(n):
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                bound.add(sub.target.id)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return bound - glob - nonl, glob, nonl, gen[0], closure[0]


SIGNATURES = {'numpy.interp': ('x', 'xp', 'fp'), 'bisect.bisect_right': ('a', 'x'), 'bisect.bisect_left': ('a', 'x'),
              'bisect.bisect': ('a', 'x'), 'numpy.transpose': ('a',), 'numpy.linalg.inv': ('a',)}


def positional(name, args, kwargs):
    """the leading named arguments of a library function, by position"""
    args, kwargs = list(args), dict(kwargs)
    for key in SIGNATURES[name][len(args):]:
        if key not in kwargs:
            break
        args.append(kwargs.pop(key))
    return args, kwargs


NUMBER_TEXT = re.compile(r'-?\d+(\.\d+)?(e[-+]?\d+)?')
NUMBER_CHARS = '0123456789.+-eE'


def align_texts(pa, pb):
    """the condition under which two texts of literals and plain numbers are equal, or None when that is not clear"""
    pa, pb, r = list(pa), list(pb), TRUE

    def ends(parts):
        """the number at the front ends where it ends: what follows cannot belong to it"""
        return len(parts) < 2 or isinstance(parts[1], str) and parts[1][0] not in NUMBER_CHARS and not parts[1][0].isalnum()
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
            for p, t in ((pa, x), (pb, y)):
                if t[n:]:
                    p[0] = t[n:]
                else:
                    del p[0]
            continue
        if any(isinstance(t, tuple) and (t[0] != 'num' or t[1] or not ends(p)) for t, p in ((x, pa), (y, pb))):
            return None
        if isinstance(x, tuple) and isinstance(y, tuple):
            r = AND(r, dd.sign_ite(N.sub(x[2], y[2]), FALSE, TRUE, FALSE))
            del pa[0], pb[0]
        else:
            hole, text, p = (x, y, pb) if isinstance(x, tuple) else (y, x, pa)
            m = NUMBER_TEXT.match(text)
            if not m:
                return None if text[:3] in ('inf', 'nan', '-in') else FALSE
            rest = text[m.end():]
            if rest and (rest[0] in NUMBER_CHARS or rest[0].isalnum()) or not rest and len(p) > 1:
                return None
            r = AND(r, dd.sign_ite(N.sub(hole[2], N.const(Fraction(m.group()))), FALSE, TRUE, FALSE))
            del (pb if p is pa else pa)[0]
            if rest:
                p[0] = rest
            else:
                del p[0]
        if r == FALSE:
            return FALSE
    return FALSE if any(isinstance(t, str) or t[0] == 'num' for t in pa + pb) else r if not pa + pb else None


def same_fields(a, b):
    return a is b or (len(a) == len(b) and all(k in b and (v is b[k] or (type(v) is type(b[k]) and v == b[k])) for k, v in a.items()))


def unchanged(heap, before):
    """every record of an earlier heap still has the same fields"""
    for oid, r in before.items():
        q = heap.get(oid)
        if q is not r and (q is None or q.kind != r.kind or q.cls is not r.cls or not same_fields(q.f, r.f)):
            return False
    return True


class Interp:
    MAX_DEPTH = 70
    MAX_WHILE = 200
    MAX_WALK = 600
    truncated = None
    MAX_SYM_WHILE = 4

    def __init__(self, root=ROOT):
        self.root = root
        self.modules = {}
        self.next_oid = 0
        self.fr = None
        self.depth = 0
        self.funcs_entered = {}      # qualname -> FuncInfo
        self.stmts_seen = set()
        self.writes = {}
        self.viewed = {}        # instance -> dicts that are its __dict__
        self.views = {}         # dict that is the __dict__ of an instance -> the instance
        self.abort_mode = False      # external calls may raise
        self.truncated = []          # reasons why some paths were not followed
        self.exc_stack = []
        self.memo_tables = {}
        self.stand_ins = {}
        self.classes = []
        self.allow_recursion = 12
        self.deep_calls = {}
        self.cur_node = None
        self.stack = []
        self.serial = 0
        self.on_yield = None
        self.fn_hooks = {}
        base = State({}, TRUE)
        self.base = base
        base.heap['EV'] = Rec('list', None, {'_': Tup(())})
        self.steps = 0
        self.step_limit = 3000000

    # ------------------------------------------------------------------ allocation
    def alloc(self, st, kind, cls=None, f=None):
        self.next_oid += 1
        oid = self.next_oid
        st.heap[oid] = Rec(kind, cls, f or {})
        return Ref(oid)

    def new_list(self, st, items):
        return self.alloc(st, 'list', None, {'_': Tup(items)})

    def new_dict(self, st, items=()):
        return self.alloc(st, 'dict', None, {'_': Map(items)})

    def new_iter(self, st, items):
        return self.alloc(st, 'iter', None, {'_': Tup(items), 'pos': Const(0)})

    def rec(self, st, ref):
        return st.heap[ref.oid]

    def write(self, st, oid, field, value):
        if oid in self.views and field == '_':
            inst = self.views[oid]
            names = list(st.heap[inst].f) + [k.lit for m in leaves(value) for k, v in m.items if isinstance(getattr(k, 'lit', None), str)]
            for n in dict.fromkeys(names):
                v = apply(lambda m: next((v for k, v in m.items if k == lit(n)), UNDEF), value)
                if v is not st.heap[inst].f.get(n, UNDEF):
                    self.write(st, inst, n, v)
        st.heap[oid] = st.heap[oid].put(field, value)
        if oid in self.viewed:
            for view in self.viewed[oid]:
                if view in st.heap:
                    st.heap[view] = st.heap[view].put('_', self.fields_map(st.heap[oid]))
        if self.cur_node is not None and self.fr is not None:
            self.writes[(oid, field)] = (self.fr.module.relpath if self.fr.module else '?', getattr(self.cur_node, 'lineno', 0),
                                         self.fr.info.qualname if self.fr.info else '<module>')

    @staticmethod
    def fields_map(r):
        """the attributes of an instance, as the content of a dict"""
        out = Map()
        for k, v in r.f.items():
            here = apply(lambda x: FALSE if x is UNDEF else TRUE, v)
            if here == FALSE:
                continue
            known = v if here == TRUE else restrict(v, here)
            out = dd.ite(here, apply(lambda m: Map(m.items + ((lit(k), known),)), out), out)
        return out

    # ------------------------------------------------------------------ joins
    def join_heaps(self, gate, h1, h2):
        """heap that is h1 where gate holds and h2 elsewhere"""
        if h1 is h2:
            return h1
        out = dict(h2)
        for oid, r1 in h1.items():
            r2 = h2.get(oid)
            if r2 is r1:
                continue
            if r2 is None:
                out[oid] = r1
                continue
            f = {}
            for k in r1.f.keys() | r2.f.keys():
                a, b = r1.f.get(k, UNDEF), r2.f.get(k, UNDEF)
                f[k] = a if a is b else ite(gate, a, b)
            # keep insertion order stable
            order = [k for k in r2.f if k in f] + [k for k in r1.f if k not in r2.f]
            out[oid] = Rec(r1.kind, r1.cls, {k: f[k] for k in order})
        return out

    def merge_many(self, entries):
        """entries: list of (pc, heap, value); returns (pc, heap, value) with gates from the pcs"""
        if not entries:
            return FALSE, None, None
        allpc = FALSE
        for pc, h, v in entries:
            allpc = OR(allpc, pc)
        pc, heap, val = entries[-1]
        for p, h, v in reversed(entries[:-1]):
            g = restrict(p, allpc)
            heap = self.join_heaps(g, h, heap)
            if val is not None or v is not None:
                val = ite(g, v, val)
        return allpc, heap, val

    def merge_into(self, st, entries):
        """merge exits (or states) with the live state st"""
        es = [(e.pc, e.heap, None) for e in entries if e.pc != FALSE]
        if not st.dead:
            es.append((st.pc, st.heap, None))
        if not es:
            return
        if len(es) == 1:
            st.pc, st.heap = es[0][0], dict(es[0][1]) if es[0][1] is not st.heap else st.heap
            return
        st.pc, st.heap, _ = self.merge_many(es)

    def split(self, st, gv, fn):
        """Run fn(state, leaf) for each leaf of gv under its guard, join, and return the gated result"""
        if not isinstance(gv, Ite):
            return fn(st, gv)
        gv = restrict(gv, st.pc)
        if gv is None:
            st.pc = FALSE
            raise DeadPath()
        if not isinstance(gv, Ite):
            return fn(st, gv)
        ls = leaves(gv)
        if len(ls) > 64:
            raise Budget('too many alternatives')
        entries = []
        for leaf in ls:
            g = guard_of(gv, leaf)
            s = st.fork(g)
            if s.dead:
                continue
            try:
                v = fn(s, leaf)
            except DeadPath:
                continue
            if s.dead:
                continue
            entries.append((s.pc, s.heap, v))
        if not entries:
            st.pc = FALSE
            raise DeadPath()
        st.pc, st.heap, v = self.merge_many(entries)
        if len(entries) == 1:
            pass
        return v

    def branch(self, st, cond, f_true, f_false):
        cond = restrict(cond, st.pc)
        if cond is None:
            st.pc = FALSE
            return
        if cond == TRUE:
            f_true(st)
            return
        if cond == FALSE:
            f_false(st)
            return
        s1, s2 = st.fork(cond), st.fork(NOT(cond))
        for s, f in ((s1, f_true), (s2, f_false)):
            if not s.dead:
                try:
                    f(s)
                except DeadPath:
                    s.pc = FALSE
        if s1.dead and s2.dead:
            st.pc = FALSE
        elif s1.dead:
            st.become(s2)
        elif s2.dead:
            st.become(s1)
        else:
            st.heap = self.join_heaps(cond, s1.heap, s2.heap)
            st.pc = OR(s1.pc, s2.pc)

    # ------------------------------------------------------------------ exceptions
    def where(self, node=None):
        node = node or self.cur_node
        fr = self.fr
        return ('%s:%d' % (fr.module.relpath if fr and fr.module else '?', getattr(node, 'lineno', 0)),
                fr.info.qualname if fr and fr.info else '<module>')

    def raise_exc(self, st, name, msg='', node=None):
        exc = self.make_exc(st, name, msg)
        self.fr.ctx.exc.append(Exit(st, exc, self.where(node)))
        st.pc = FALSE
        raise DeadPath()

    def make_exc(self, st, name, msg=''):
        return self.alloc(st, 'inst', Builtin(name), {'args': Tup((lit(msg),) if isinstance(msg, str) else tuple(msg))})

    def guard_raise(self, st, cond, name, msg='', node=None):
        """Raise under cond, continue with not cond"""
        cond = restrict(cond, st.pc)
        if cond is None or cond == FALSE:
            return
        s = st.fork(cond)
        if not s.dead:
            exc = self.make_exc(s, name, msg)
            self.fr.ctx.exc.append(Exit(s, exc, self.where(node)))
        st.pc = AND(st.pc, NOT(cond))
        if st.dead:
            raise DeadPath()

    def may_raise(self, st, what, node=None):
        """An external call that may fail: record the exit without dividing the main path"""
        if self.abort_mode:
            exc = self.alloc(st, 'inst', Builtin('Exception'), {'args': Tup((lit('external failure in ' + what),))})
            self.fr.ctx.exc.append(Exit(st, exc, self.where(node), may=True))

    # ------------------------------------------------------------------ class machinery
    def mro(self, ci):
        if ci.mro is None:
            bases = [b.ci for b in ci.bases if isinstance(b, ClassRef)]
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            out = [ci]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported('inconsistent MRO for %s' % ci.name)
                out.append(c)
                for t in seqs:
                    if t and t[0] is c:
                        del t[0]
            ci.mro = out
        return ci.mro

    def class_of(self, st, leaf):
        """ClassRef/Builtin of a leaf"""
        if isinstance(leaf, Ref):
            r = self.rec(st, leaf)
            if r.kind == 'inst':
                return r.cls if not isinstance(r.cls, ClassInfo) else r.cls.ref
            return Builtin({'list': 'list', 'dict': 'dict', 'set': 'set', 'iter': 'iterator', 'nd': 'numpy.ndarray',
                            'gen': 'generator', 'impath': 'PIL.ImagePath.Path', 'obj': 'object'}.get(r.kind, r.kind))
        if isinstance(leaf, Num):
            return Builtin('float')
        if isinstance(leaf, Const):
            return Builtin({bool: 'bool', type(None): 'NoneType', bytes: 'bytes'}.get(type(leaf.v), type(leaf.v).__name__))
        if isinstance(leaf, Str):
            return Builtin('str')
        if isinstance(leaf, Tup):
            return Builtin('tuple')
        if isinstance(leaf, (Func, Bound, Partial)):
            return Builtin('function')
        if isinstance(leaf, (ClassRef, Builtin)):
            return Builtin('type')
        return Opq('typeof', leaf)

    def cls_lookup(self, st, ci, name, after=None):
        """(value GV, defining class) or None, from the class dictionaries along the MRO"""
        m = self.mro(ci)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            v = st.heap[c.oid].f.get(name)
            if v is not None and v is not UNDEF:
                return v, c
        return None

    def has_ext_base(self, ci):
        return any(isinstance(b, (Ext, Opq)) and b.k[0] not in EXT_BASE_OK for c in self.mro(ci) for b in c.bases)

    def exc_matches(self, cls, pat):
        """does an exception of class leaf `cls` match handler pattern leaf `pat`: True/False/None(unknown)"""
        if isinstance(cls, ClassRef):
            if isinstance(pat, ClassRef):
                return pat.ci in self.mro(cls.ci)
            for c in self.mro(cls.ci):
                for b in c.bases:
                    if isinstance(b, Builtin) and self.exc_matches(b, pat):
                        return True
            return False
        if isinstance(cls, Builtin) and cls.k[0] == 'numpy.linalg.LinAlgError' and isinstance(pat, (Builtin, Ext)):
            if pat.k[0].endswith('LinAlgError'):
                return True
            cls = Builtin('ValueError')
        if isinstance(cls, Builtin) and isinstance(pat, Builtin):
            a, b = getattr(builtins, cls.k[0], None), getattr(builtins, pat.k[0], None)
            if isinstance(a, type) and isinstance(b, type):
                return issubclass(a, b)
            return cls == pat
        if isinstance(cls, Builtin) and isinstance(pat, ClassRef):
            return False
        if isinstance(pat, Ext):
            if isinstance(cls, ClassRef):
                return False
            return cls.k[0] == pat.k[0] if isinstance(cls, Builtin) else None
        return None

    # ------------------------------------------------------------------ truth
    def truth(self, st, gv):
        if not isinstance(gv, Ite):
            return self.truth_leaf(st, gv)
        if all(not isinstance(l, (Ref, Opq)) for l in leaves(gv)):
            return apply(lambda l: self.truth_leaf(st, l), gv)
        return self.split(st, gv, self.truth_leaf)

    def truth_leaf(self, st, l):
        if isinstance(l, Num):
            return dd.sign_ite(l, TRUE, FALSE, TRUE)
        if isinstance(l, Const):
            return TRUE if l.v else FALSE
        if isinstance(l, Str):
            return TRUE if l.parts else FALSE
        if isinstance(l, Tup):
            return TRUE if l.items else FALSE
        if isinstance(l, Ref):
            r = self.rec(st, l)
            if r.kind in ('list', 'dict', 'set'):
                return apply(lambda x: TRUE if x.items else FALSE, r.f['_'])
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                m = self.cls_lookup(st, r.cls, '__bool__')
                if m:
                    return self.truth(st, self.call_method(st, l, '__bool__', []))
                m = self.cls_lookup(st, r.cls, '__len__')
                if m:
                    return self.truth(st, self.call_method(st, l, '__len__', []))
                return TRUE
            if r.kind == 'nd':
                c = self.nd_content(st, l)
                if len(c.items) == 1:
                    return self.truth(st, c.items[0])
                self.raise_exc(st, 'ValueError', 'The truth value of an array is ambiguous')
            if r.kind == 'impath':
                return apply(lambda x: TRUE if x.items else FALSE, r.f['_'])
            return TRUE
        if isinstance(l, Opq):
            return dd.bvar(('truth',) + (l,))
        if l is UNDEF:
            raise Unsupported('undefined value')
        return TRUE

    # ------------------------------------------------------------------ equality
    def eq(self, st, a, b, ident=False):
        """gated boolean a == b"""
        if a is b and not isinstance(a, Ite) and not isinstance(a, Ref):
            return TRUE
        simple = (Num, Const, Str)
        if all(isinstance(l, simple) for l in leaves(a)) and all(isinstance(l, simple) for l in leaves(b)):
            return apply(self.eq_simple, a, b)
        return self.split(st, a, lambda s, la: self.split(s, b, lambda s2, lb: self.eq_leaf(s2, la, lb, ident)))

    def eq_simple(self, a, b):
        if isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, Num):
            a = N.const(int(a.v))
        if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, Num):
            b = N.const(int(b.v))
        if isinstance(a, Num) and isinstance(b, Num):
            return dd.sign_ite(N.sub(a, b), FALSE, TRUE, FALSE)
        if isinstance(a, Const) and isinstance(b, Const):
            return TRUE if a == b else FALSE
        if isinstance(a, Str) and isinstance(b, Str):
            return self.str_eq(a, b)
        return FALSE

    def str_eq(self, a, b):
        if a.parts == b.parts:
            return TRUE
        if a.lit is not None and b.lit is not None:
            return FALSE
        # same literal skeleton with numbers: equal iff numbers equal
        if len(a.parts) == len(b.parts) and all(
                (isinstance(x, str) and x == y) or (isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == y[:2] and x[0] == 'num')
                for x, y in zip(a.parts, b.parts)):
            r = TRUE
            for x, y in zip(a.parts, b.parts):
                if isinstance(x, tuple):
                    if x[1]:
                        return dd.bvar(('streq', a, b))
                    r = AND(r, dd.sign_ite(N.sub(x[2], y[2]), FALSE, TRUE, FALSE))
            return r
        r = align_texts(a.parts, b.parts)
        if r is not None:
            return r
        # differing literal prefix or suffix decides
        pa, pb = a.parts, b.parts
        if (pa and isinstance(pa[0], str) and pb and isinstance(pb[0], str)):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return FALSE
        if (pa and isinstance(pa[-1], str) and pb and isinstance(pb[-1], str)):
            n = min(len(pa[-1]), len(pb[-1]))
            if n and pa[-1][-n:] != pb[-1][-n:]:
                return FALSE
        if not pa or not pb:
            return FALSE        # symbolic strings are non-empty
        k1, k2 = sorted((a, b), key=repr)
        return dd.bvar(('streq', k1, k2))

    def eq_leaf(self, st, a, b, ident=False):
        simple = (Num, Const, Str)
        if isinstance(a, simple) and isinstance(b, simple):
            return self.eq_simple(a, b)
        if ident and a == b:
            return TRUE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                if r == FALSE:
                    break
                r = AND(r, self.eq(st, x, y, True))
            return r
        ra = self.rec(st, a) if isinstance(a, Ref) else None
        rb = self.rec(st, b) if isinstance(b, Ref) else None
        if ra is not None and ra.kind == 'inst' or rb is not None and rb.kind == 'inst':
            return self.truth(st, self.rich_eq(st, a, b))
        if ra is not None and rb is not None:
            if a == b and ra.kind != 'nd':
                return TRUE
            if ra.kind == rb.kind in ('list', 'impath'):
                return self.eq(st, ra.f['_'], rb.f['_'])
            if ra.kind == rb.kind == 'dict':
                return self.split(st, ra.f['_'], lambda s, x: self.split(s, rb.f['_'], lambda s2, y: self.eq_map(s2, x, y)))
            if ra.kind == rb.kind == 'set':
                return self.split(st, ra.f['_'], lambda s, x: self.split(
                    s, rb.f['_'], lambda s2, y: TRUE if set(k for k, _ in x.items) == set(k for k, _ in y.items) else FALSE))
            return FALSE
        if a == b:
            return TRUE
        if isinstance(a, (Opq, Ext)) or isinstance(b, (Opq, Ext)):
            if isinstance(a, Const) or isinstance(b, Const) or isinstance(a, (Str, Num)) or isinstance(b, (Str, Num)):
                pass
            k1, k2 = sorted((a, b), key=repr)
            return dd.bvar(('eq', k1, k2))
        return FALSE

    def eq_map(self, st, x, y):
        if len(x.items) != len(y.items):
            return FALSE
        d = dict(y.items)
        r = TRUE
        for k, v in x.items:
            if k not in d:
                return FALSE
            r = AND(r, self.eq(st, v, d[k], True))
            if r == FALSE:
                break
        return r

    def rich_eq(self, st, a, b, op='__eq__'):
        """instance == with reflection"""
        def klass(l):
            if isinstance(l, Ref) and self.rec(st, l).kind == 'inst' and isinstance(self.rec(st, l).cls, ClassInfo):
                return self.rec(st, l).cls
        ca, cb = klass(a), klass(b)
        order = []
        if ca:
            order.append((ca, a, b))
        if cb:
            if ca and cb is not ca and ca in self.mro(cb):
                order.insert(0, (cb, b, a))
            else:
                order.append((cb, b, a))
        if op == '__ne__':
            for c, x, y in order:
                m = self.cls_lookup(st, c, '__ne__')
                if m:
                    r = self.call_method(st, x, '__ne__', [y])
                    if NOTIMPL not in leaves(r):
                        return r
            return self.bool_not(st, self.rich_eq(st, a, b))
        res = None
        for c, x, y in order:
            m = self.cls_lookup(st, c, '__eq__')
            if m:
                r = self.call_method(st, x, '__eq__', [y])
                if res is not None:
                    g = guard_of(res, NOTIMPL)
                    r = ite(g, r, res)
                res = r
                if NOTIMPL not in leaves(r):
                    return r
        ident = TRUE if a == b else FALSE
        if res is None:
            return ident
        return apply(lambda l: ident if l == NOTIMPL else l, res)

    def bool_not(self, st, v):
        return NOT(self.truth(st, v))

    # ------------------------------------------------------------------ names
    def lookup_name(self, st, fr, name, node):
        if name.startswith('__sva_std_'):
            return self.pystd(st, name[10:])
        if name == '__sva_missing':
            return self.pystd(st, 'MISSING')
        for names, oid in fr.scopes:
            if names is None or name in names:
                v = st.heap[oid].f.get(name)
                if v is not None:
                    if v is UNDEF:
                        v = None
                if v is not None:
                    if isinstance(v, Ite) and UNDEF in leaves(v):
                        v = restrict(v, st.pc)
                        if isinstance(v, Ite) and UNDEF in leaves(v):
                            g = guard_of(v, UNDEF)
                            self.guard_raise(st, g, 'UnboundLocalError', name, node)
                            v = restrict(v, st.pc)
                    if v is not UNDEF:
                        return v
                if names is not None:
                    self.raise_exc(st, 'UnboundLocalError', name, node)
        v = st.heap[fr.module.oid].f.get(name) if fr.module else None
        if v is not None and v is not UNDEF:
            return v
        if name in BUILTIN_CONSTS:
            return BUILTIN_CONSTS[name]
        if name in BUILTINS or hasattr(builtins, name):
            return Builtin(name)
        self.raise_exc(st, 'NameError', name, node)

    def assign_name(self, st, fr, name, v):
        if fr.info is not None and name in fr.info.globals_:
            self.write(st, fr.module.oid, name, v)
            return
        for names, oid in fr.scopes:
            if names is None or name in names:
                self.write(st, oid, name, v)
                return
        self.write(st, fr.module.oid, name, v)

    # ------------------------------------------------------------------ attributes
    def getattr(self, st, gv, name, node=None, default=None):
        if not isinstance(gv, Ite):
            return self.getattr_leaf(st, gv, name, node, default)
        return self.split(st, gv, lambda s, l: self.getattr_leaf(s, l, name, node, default))

    def bind(self, st, v, owner, leaf, cls):
        """descriptor protocol for a class attribute value v found on class owner"""
        def one(s, l):
            if isinstance(l, Func):
                return Bound(l, leaf) if leaf is not None else l
            if isinstance(l, Wrap):
                k = l.k[0]
                if k == 'static':
                    return l.k[1]
                if k == 'class':
                    return Bound(l.k[1], cls.ref if isinstance(cls, ClassInfo) else cls)
                if k == 'prop':
                    if leaf is None:
                        return l
                    if l.k[1] == NONE:
                        self.raise_exc(s, 'AttributeError', 'unreadable attribute')
                    return self.call(s, l.k[1], [leaf], {})
                if k == 'cached':
                    if leaf is None:
                        return l
                    v = self.call(s, l.k[1], [leaf], {})
                    self.write(s, leaf.oid, l.k[1].info.name, v)
                    return v
                if k in ('cm', 'memo'):
                    return Bound(l, leaf) if leaf is not None else l
            return l
        return self.split(st, v, one)

    def getattr_leaf(self, st, l, name, node=None, default=None):
        if isinstance(l, Ref):
            r = self.rec(st, l)
            if r.kind == 'inst':
                ci = r.cls
                if isinstance(ci, ClassInfo):
                    if name == '__class__':
                        return ci.ref
                    m = self.cls_lookup(st, ci, name)
                    if m and isinstance(m[0], Wrap) and m[0].k[0] == 'prop':
                        return self.bind(st, m[0], m[1], l, ci)
                    if m and isinstance(m[0], Ref) and self.descriptor(st, m, '__get__') and (self.descriptor(st, m, '__set__') or name not in r.f):
                        return self.call_method(st, m[0], '__get__', [l, ci.ref])
                    v = r.f.get(name)
                    if v is not None and v is not UNDEF:
                        if isinstance(v, Ite) and UNDEF in leaves(v):
                            v = restrict(v, st.pc)
                            if v is None:
                                raise DeadPath()
                            if UNDEF in leaves(v):
                                g = guard_of(v, UNDEF)
                                if default is not None:
                                    return apply(lambda x: default if x is UNDEF else x, v)
                                self.guard_raise(st, g, 'AttributeError', "%s.%s" % (ci.name, name), node)
                                v = restrict(v, st.pc)
                        return v
                    if m:
                        return self.bind(st, m[0], m[1], l, ci)
                    if name == '__dict__':
                        view = self.alloc(st, 'dict', None, {'_': self.fields_map(r)})
                        self.views[view.oid] = l.oid
                        self.viewed.setdefault(l.oid, []).append(view.oid)
                        return view
                    if name in OBJECT_METHODS:
                        return BMeth(name, l)
                    m = self.cls_lookup(st, ci, '__getattr__')
                    if m:
                        return self.call_method(st, l, '__getattr__', [lit(name)])
                    if self.has_ext_base(ci):
                        return Opq('attr', l, name)
                    if default is not None:
                        return default
                    self.raise_exc(st, 'AttributeError', "'%s' object has no attribute '%s'" % (ci.name, name), node)
                # builtin exception instance
                if name in r.f:
                    return r.f[name]
                if name == '__class__':
                    return r.cls
                return Opq('attr', l, name)
            if r.kind == 'nd':
                return self.nd_attr(st, l, name, node)
            if r.kind == 'obj':
                if name in r.f:
                    return r.f[name]
            if name == '__class__':
                return self.class_of(st, l)
            if r.kind == 'obj' and 'cm' in r.f and name in ('__enter__', '__exit__'):
                raise Unsupported('%s of a generator context manager' % name)
            if (r.kind, name) in METHODS or (r.kind == 'gen' and name in ('close', 'send', 'throw')):
                return BMeth(name, l)
            if r.kind in ('gen', 'iter') and name in ('send', 'throw', 'close', '__length_hint__'):
                raise Unsupported('generator %s' % name)
            if hasattr({'list': list, 'dict': dict, 'set': set}.get(r.kind), name) and r.kind in ('list', 'dict', 'set'):
                raise Unsupported('%s.%s' % (r.kind, name))
            if default is not None:
                return default
            self.raise_exc(st, 'AttributeError', "'%s' object has no attribute '%s'" % (r.kind, name), node)
        if isinstance(l, ModRef):
            mod = self.modules[l.k[0]]
            v = st.heap[mod.oid].f.get(name)
            if v is not None and v is not UNDEF:
                return v
            sub = l.k[0] + '.' + name
            if self.find_module(sub):
                return ModRef(self.load_module(st, sub).name)
            if default is not None:
                return default
            self.raise_exc(st, 'AttributeError', 'module %s has no attribute %s' % (l.k[0], name), node)
        if isinstance(l, ClassRef):
            m = self.cls_lookup(st, l.ci, name)
            if m and isinstance(m[0], Ref) and self.descriptor(st, m, '__get__'):
                return self.call_method(st, m[0], '__get__', [NONE, l])
            if m:
                return self.bind(st, m[0], m[1], None, l.ci)
            if name in ('__name__', '__qualname__'):
                return lit(l.ci.name)
            if name == '__mro__':
                return Tup([c.ref for c in self.mro(l.ci)] + [Builtin('object')])
            if name == '__module__':
                return lit(l.ci.module.name)
            if name == '__bases__':
                return Tup(l.ci.bases)
            if name == '__subclasses__':
                return Partial(Builtin('_subclasses'), (l,), ())
            if name in OBJECT_METHODS:
                return Builtin('object.' + name)
            if default is not None:
                return default
            self.raise_exc(st, 'AttributeError', "class %s has no attribute %s" % (l.ci.name, name), node)
        if isinstance(l, SuperRef):
            ci, obj = l.k
            if isinstance(obj, ClassRef):
                start, cls = obj.ci, obj.ci
            else:
                start = self.rec(st, obj).cls
                cls = start
            m = self.cls_lookup(st, start, name, after=ci)
            if m:
                v = m[0]
                if isinstance(obj, ClassRef):
                    return self.bind(st, v, m[1], None, cls) if not isinstance(v, Func) else v
                return self.bind(st, v, m[1], obj, cls)
            if name in OBJECT_METHODS:
                return BMeth(name, obj)
            if self.has_ext_base(start):
                return Opq('attr', l, name)
            self.raise_exc(st, 'AttributeError', "'super' object has no attribute '%s'" % name, node)
        if isinstance(l, Ext):
            full = l.k[0] + '.' + name
            sub = self.stand_ins.get(full)
            if isinstance(sub, Ref):
                return sub
            if full in PYSTD and sub is None:
                return self.pystd(st, PYSTD[full])
            return EXT_CONSTS.get(full) or Ext(full)
        if isinstance(l, Opq):
            return Opq('attr', l, name)
        if isinstance(l, Str):
            if ('str', name) in METHODS:
                return BMeth(name, l)
        if isinstance(l, Tup):
            if ('tuple', name) in METHODS:
                return BMeth(name, l)
        if isinstance(l, Num):
            if name in ('real',):
                return l
            if name == 'imag':
                return N.ZERO
            if ('num', name) in METHODS:
                return BMeth(name, l)
        if isinstance(l, (Func, Bound, Partial)):
            f = l.k[0] if isinstance(l, Bound) else l
            if name in ('__name__', '__qualname__') and isinstance(f, Func):
                return lit(f.info.name)
            if name == '__self__' and isinstance(l, Bound):
                return l.k[1]
            if name == '__func__' and isinstance(l, Bound):
                return f
            if name == '__doc__':
                return NONE
            if name in ('cache_clear', 'cache_info'):
                return Builtin('noop')
        if isinstance(l, Builtin):
            if name in ('__name__', '__qualname__'):
                return lit(l.k[0].split('.')[-1])
            return Builtin(l.k[0] + '.' + name)
        if isinstance(l, Wrap) and l.k[0] == 'prop':
            if name in ('setter', 'getter', 'deleter'):
                return BMeth(name, l)
            if name in ('fget', 'fset', 'fdel'):
                return l.k[1 + ('fget', 'fset', 'fdel').index(name)]
        if isinstance(l, Wrap) and l.k[0] == 'memo':
            if name in ('cache_clear', 'cache_info'):
                return Builtin('noop')
        if isinstance(l, Slice) and name in ('start', 'stop', 'step'):
            return l.k[('start', 'stop', 'step').index(name)]
        if isinstance(l, Const) and l.v is None and name == '__class__' or name == '__class__':
            return self.class_of(st, l)
        real = {Str: '', Tup: (), Num: 0.5, Func: leaves, Bound: leaves}.get(type(l))
        if real is not None and hasattr(real, name):
            raise Unsupported('%s of %s' % (name, type(real).__name__))
        if default is not None:
            return default
        self.raise_exc(st, 'AttributeError', "%s has no attribute '%s'" % (self.class_of(st, l), name), node)

    def setattr(self, st, gv, name, v, node=None):
        def one(s, l):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind == 'inst':
                    ci = r.cls
                    if isinstance(ci, ClassInfo):
                        m = self.cls_lookup(s, ci, name)
                        if m and isinstance(m[0], Wrap) and m[0].k[0] == 'prop':
                            if m[0].k[2] == NONE:
                                self.raise_exc(s, 'AttributeError', "can't set attribute %s" % name, node)
                            self.call(s, m[0].k[2], [l, v], {})
                            return NONE
                        if m and isinstance(m[0], Ref) and self.descriptor(s, m, '__set__'):
                            self.call_method(s, m[0], '__set__', [l, v])
                            return NONE
                        if self.cls_lookup(s, ci, '__setattr__') and not self._in_setattr:
                            self.call_method(s, l, '__setattr__', [lit(name), v])
                            return NONE
                        if ci.slots_only and not self.slot_ok(s, ci, name):
                            self.raise_exc(s, 'AttributeError', "'%s' object has no attribute '%s'" % (ci.name, name), node)
                    self.write(s, l.oid, name, v)
                    return NONE
                if r.kind in ('obj',):
                    self.write(s, l.oid, name, v)
                    return NONE
                if r.kind == 'nd':
                    raise Unsupported('ndarray attribute assignment')
            if isinstance(l, ClassRef):
                self.write(s, l.ci.oid, name, v)
                return NONE
            if isinstance(l, ModRef):
                self.write(s, self.modules[l.k[0]].oid, name, v)
                return NONE
            if isinstance(l, Opq):
                self.event(s, 'setattr:' + name, [l, v])
                return NONE
            if isinstance(l, (Func, Ext)):
                return NONE
            self.raise_exc(s, 'AttributeError', "cannot set attribute '%s' on %s" % (name, self.class_of(s, l)), node)
        self.split(st, gv, one)

    _in_setattr = False

    def slot_ok(self, st, ci, name):
        for c in self.mro(ci):
            sl = st.heap[c.oid].f.get('__slots__')
            if isinstance(sl, Tup):
                if any(isinstance(x, Str) and x.lit == name for x in sl.items):
                    return True
            elif isinstance(sl, Str) and sl.lit == name:
                return True
            elif isinstance(sl, Ref):
                c2 = st.heap[sl.oid].f['_']
                if any(isinstance(x, Str) and x.lit == name for x in (c2.items if isinstance(c2, Tup) else [k for k, _ in c2.items])):
                    return True
        return False

    def delattr(self, st, gv, name, node=None):
        def one(s, l):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind == 'inst':
                    if isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, '__delattr__'):
                        self.call_method(s, l, '__delattr__', [lit(name)])
                        return NONE
                    v = r.f.get(name, UNDEF)
                    if v is UNDEF:
                        self.raise_exc(s, 'AttributeError', name, node)
                    s.heap[l.oid] = r.drop(name)
                    return NONE
            raise Unsupported('del attribute')
        self.split(st, gv, one)

    # ------------------------------------------------------------------ events / external effects
    def event(self, st, name, args):
        c = st.heap['EV'].f['_']
        ev = Event(name, tuple(self.freeze(st, a) for a in args))
        st.heap['EV'] = st.heap['EV'].put('_', apply(lambda t: Tup(t.items + (ev,)), c))

    def freeze(self, st, gv, depth=4):
        def one(l):
            if isinstance(l, Ref) and depth:
                r = st.heap.get(l.oid)
                if r is not None and r.kind in ('list', 'impath') and isinstance(r.f['_'], Tup):
                    return Tup([self.freeze(st, x, depth - 1) for x in r.f['_'].items])
                if r is not None and r.kind == 'nd':
                    return self.nd_content(st, l)
            if isinstance(l, Tup) and depth:
                return Tup([self.freeze(st, x, depth - 1) for x in l.items])
            return l
        return apply(one, gv)

    # ------------------------------------------------------------------ calls
    def call_method(self, st, leaf, name, args, kwargs=None):
        f = self.getattr(st, leaf, name)
        return self.call(st, f, args, kwargs or {})

    def call(self, st, fv, args, kwargs, node=None):
        if st.dead:
            raise DeadPath()
        if not isinstance(fv, Ite):
            return self.call_leaf(st, fv, args, kwargs, node)
        return self.split(st, fv, lambda s, l: self.call_leaf(s, l, args, kwargs, node))

    def call_leaf(self, st, f, args, kwargs, node=None):
        if isinstance(f, Func):
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, Bound):
            return self.call_leaf(st, f.k[0], [f.k[1]] + list(args), kwargs, node)
        if isinstance(f, ClassRef):
            return self.instantiate(st, f.ci, args, kwargs, node)
        if isinstance(f, BMeth):
            return self.call_bmeth(st, f, args, kwargs, node)
        if isinstance(f, Builtin):
            h = BUILTINS.get(f.k[0])
            if h is None:
                b = getattr(builtins, f.k[0], None)
                if isinstance(b, type) and issubclass(b, BaseException):
                    return self.alloc(st, 'inst', f, {'args': Tup(args)})
                raise Unsupported('builtin %s' % f.k[0])
            return h(self, st, list(args), dict(kwargs), node)
        if isinstance(f, Ext):
            if f.k[0] in self.stand_ins:
                return self.call(st, self.stand_ins[f.k[0]], args, kwargs, node)
            h = EXT.get(f.k[0])
            if kwargs and f.k[0] in SIGNATURES:
                args, kwargs = positional(f.k[0], args, kwargs)
            if h is not None:
                return h(self, st, list(args), dict(kwargs), node)
            if f.k[0] in PYSTD:
                return self.call(st, self.pystd(st, PYSTD[f.k[0]]), args, kwargs, node)
            if f.k[0].startswith(CONCRETE_EXT) and not kwargs:
                v = CONCRETE(self, st, f.k[0], args, node)
                if v is not None:
                    return v
            return self.call_opaque(st, f, args, kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.k[2])
            kw.update(kwargs)
            return self.call_leaf(st, f.k[0], list(f.k[1]) + list(args), kw, node)
        if isinstance(f, Wrap):
            if f.k[0] == 'static':
                return self.call(st, f.k[1], args, kwargs, node)
            if f.k[0] == 'memo':
                key = (f.k[1], tuple(dd.nid(a) for a in args), tuple(sorted((k, dd.nid(v)) for k, v in kwargs.items())))
                tab = self.memo_tables.setdefault(id(f), {})
                if key in tab and all(l.oid in st.heap for l in leaves(tab[key]) if isinstance(l, Ref)):
                    return tab[key]
                v = self.call(st, f.k[1], args, kwargs, node)
                tab[key] = v
                return v
            if f.k[0] == 'cm':
                return self.alloc(st, 'obj', None, {'cm': f.k[1], 'args': Tup(args), 'kw': Map([(lit(k), v) for k, v in kwargs.items()])})
        if isinstance(f, Ref):
            r = self.rec(st, f)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                if self.cls_lookup(st, r.cls, '__call__'):
                    return self.call_method(st, f, '__call__', args, kwargs)
        if isinstance(f, Opq):
            return self.call_opaque(st, f, args, kwargs, node)
        if f is UNDEF:
            raise Unsupported('call of undefined')
        self.raise_exc(st, 'TypeError', '%s object is not callable' % (f,), node)

    def call_opaque(self, st, f, args, kwargs, node):
        name = callee_name(f)
        if not name.startswith(PURE_EXT):
            self.event(st, name, list(args) + [v for k, v in sorted(kwargs.items())])
            self.may_raise(st, name, node)
        fa = tuple(self.freeze(st, a) for a in args)
        serial = ()
        if name.endswith(FRESH_EXT):
            self.serial += 1
            serial = (self.serial,)
        return Opq('call', f, tuple(dd.nid(a) if isinstance(a, Ite) else a for a in fa),
                   tuple(sorted((k, self.freeze(st, v)) for k, v in kwargs.items())) if kwargs else (), *serial)

    def bind_args(self, st, f, args, kwargs, node):
        a = f.info.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        n = len(pos)
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > n and not a.vararg:
            self.raise_exc(st, 'TypeError', '%s() takes %d positional arguments but %d were given' % (f.info.qualname, n, len(args)), node)
        for name, v in zip(pos, args):
            env[name] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(args[n:])
        posonly = {x.arg for x in a.posonlyargs}
        kwnames = set(pos) - posonly | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kwargs.items():
            if k in kwnames:
                if k in env:
                    self.raise_exc(st, 'TypeError', '%s() got multiple values for argument %s' % (f.info.qualname, k), node)
                env[k] = v
            elif a.kwarg:
                extra.append((lit(k), v))
            else:
                self.raise_exc(st, 'TypeError', '%s() got an unexpected keyword argument %s' % (f.info.qualname, k), node)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, extra)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (n - nd)
                if j < 0:
                    self.raise_exc(st, 'TypeError', '%s() missing required argument %s' % (f.info.qualname, name), node)
                env[name] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in env:
                d = dict(f.kwdefaults)
                if x.arg not in d:
                    self.raise_exc(st, 'TypeError', '%s() missing keyword-only argument %s' % (f.info.qualname, x.arg), node)
                env[x.arg] = d[x.arg]
        return env

    def call_func(self, st, f, args, kwargs, node=None, handler=None):
        info = f.info
        hook = self.fn_hooks.get(info.qualname)
        if hook is not None:
            r = hook(self, st, f, args, kwargs)
            if r is not None:
                return r
        env = self.bind_args(st, f, args, kwargs, node)
        if info.is_gen and handler is None:
            return self.alloc(st, 'gen', None, {'f': f, 'env': Map([(lit(k), v) for k, v in env.items()])})
        return self.run_func(st, f, env, handler)

    def run_func(self, st, f, env, handler=None):
        info = f.info
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('call depth')
        deep = self.stack.count(info)
        if deep > self.allow_recursion:
            seen = self.deep_calls.get(info)
            if seen is not None and seen[0] == st.pc and same_fields(env, seen[1]) and unchanged(st.heap, seen[2]):
                # the same call again, with nothing changed since the last one
                self.raise_exc(st, 'RecursionError', 'endless recursion in %s' % info.qualname)
            if deep > self.allow_recursion + 2:
                raise Unsupported('recursion in %s' % info.qualname)
            self.deep_calls[info] = (st.pc, env, dict(st.heap))
        self.funcs_entered[info.qualname] = info
        self.next_oid += 1
        oid = self.next_oid
        st.heap[oid] = Rec('frame', None, env)
        ctx = Ctx()
        self_leaf = None
        a = info.args
        first = (a.posonlyargs + a.args)
        if info.cls is not None and first:
            self_leaf = env[first[0].arg]
        fr = Frame(info, info.module, oid, ((info.locals, oid),) + f.scopes, ctx, self_leaf, handler, info.cls)
        old, oldnode = self.fr, self.cur_node
        self.fr = fr
        self.depth += 1
        self.stack.append(info)
        base_pc = st.pc
        try:
            if isinstance(info.node, ast.Lambda):
                try:
                    v = self.ev(info.node.body, st, fr)
                    ctx.ret.append(Exit(st, v))
                except DeadPath:
                    pass
                st.pc = FALSE
            else:
                self.exec_block(info.node.body, st, fr)
        finally:
            self.fr, self.cur_node = old, oldnode
            self.depth -= 1
            self.stack.pop()
        entries = [(e.pc, e.heap, e.val) for e in ctx.ret if e.pc != FALSE]
        if not st.dead:
            entries.append((st.pc, st.heap, NONE))
        for e in ctx.exc:
            old.ctx.exc.append(e)
        for t in ctx.foreign:
            if t[2] is old:
                t[0].append(t[1])
            else:
                old.ctx.foreign.append(t)       # unwinds through the generators in between
        if not entries:
            st.pc = FALSE
            raise DeadPath()
        st.pc, heap, v = self.merge_many(entries)
        st.heap = heap if heap is not None else st.heap
        if not info.has_closure and handler is None and not self.keep_frames:
            st.heap.pop(oid, None)
        return v

    keep_frames = False

    def instantiate(self, st, ci, args, kwargs, node=None):
        if getattr(ci, 'enum', None) and len(args) == 1 and not kwargs:
            for v, e in ci.enum:
                c = self.eq(st, v, args[0], True)
                if c == TRUE:
                    return e
                if c != FALSE:
                    raise Unsupported('symbolic member of an enumeration')
            self.raise_exc(st, 'ValueError', 'not a valid %s' % ci.name, node)
        missing = self.abstract_methods(st, ci)
        if missing:
            self.raise_exc(st, 'TypeError', "Can't instantiate abstract class %s with abstract methods %s" % (ci.name, ', '.join(sorted(missing))), node)
        if self.cls_lookup(st, ci, '__new__'):
            obj = self.call(st, self.cls_lookup(st, ci, '__new__')[0], [ci.ref] + list(args), kwargs, node)
            if not isinstance(obj, Ref) or self.rec(st, obj).kind != 'inst' or ci not in self.mro(self.rec(st, obj).cls):
                return obj
        else:
            obj = self.alloc(st, 'inst', ci, {})
        m = self.cls_lookup(st, ci, '__init__')
        if m:
            self.call(st, m[0], [obj] + list(args), kwargs, node)
        elif any(isinstance(b, Builtin) for c in self.mro(ci) for b in c.bases):
            self.write(st, obj.oid, 'args', Tup(args))
        elif (args or kwargs) and not self.has_ext_base(ci) and not self.cls_lookup(st, ci, '__new__'):
            self.raise_exc(st, 'TypeError', '%s() takes no arguments' % ci.name, node)
        return obj

    def abstract_methods(self, st, ci):
        if not any(isinstance(b, Ext) and b.k[0] in ('abc.ABC', 'ABC') or (isinstance(b, Ext) and 'Supports' in b.k[0])
                   for c in self.mro(ci) for b in c.bases):
            return ()
        out = set()
        seen = set()
        for c in self.mro(ci):
            for k, v in st.heap[c.oid].f.items():
                if k in seen:
                    continue
                seen.add(k)
                f = v
                if isinstance(f, Wrap) and len(f.k) > 1:
                    f = f.k[1]
                if isinstance(f, Func) and f.info.abstract:
                    out.add(k)
        return out

    # ------------------------------------------------------------------ iteration
    def content(self, st, ref):
        return st.heap[ref.oid].f['_']

    def seq_items(self, st, l, node=None):
        """list of gated items of a finite, already materialised leaf, or a gated content to split on"""
        if isinstance(l, Tup):
            return l
        if isinstance(l, Str):
            if l.lit is not None:
                return Tup([lit(c) for c in l.lit])
            raise Unsupported('iteration over a symbolic string')
        if isinstance(l, Ref):
            r = self.rec(st, l)
            if r.kind in ('list', 'impath'):
                return r.f['_']
            if r.kind in ('dict', 'set'):
                return apply(lambda m: Tup([k for k, _ in m.items]), r.f['_'])
            if r.kind == 'iter':
                if 'lazy' in r.f or 'cut' in r.f:
                    raise Unsupported('unbounded iterator')
                pos = r.f['pos']
                out = apply(lambda t, p: Tup(t.items[p.v:]), r.f['_'], pos)
                self.write(st, l.oid, 'pos', apply(lambda t: Const(len(t.items)), r.f['_']))
                return out
            if r.kind == 'nd':
                return Tup(self.nd_rows(st, l))
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                if self.cls_lookup(st, r.cls, '__iter__'):
                    it = self.call_method(st, l, '__iter__', [])
                    return self.split(st, it, lambda s, x: self.materialise(s, x))
                if self.cls_lookup(st, r.cls, '__getitem__') and self.cls_lookup(st, r.cls, '__len__'):
                    n = self.call_method(st, l, '__len__', [])
                    if isinstance(n, Num) and n.const() is not None:
                        return Tup([self.call_method(st, l, '__getitem__', [N.const(i)]) for i in range(int(n.const()))])
            if r.kind == 'gen':
                return self.collect_gen(st, l)
        if isinstance(l, ClassRef) and getattr(l.ci, 'enum', None):
            return Tup([e for _, e in l.ci.enum])
        if isinstance(l, (Const, Num, Func, Bound, ClassRef)):
            self.raise_exc(st, 'TypeError', '%s object is not iterable' % (self.class_of(st, l),), node)
        raise Unsupported('iteration over %s' % (l,))

    def materialise(self, st, l):
        c = self.seq_items(st, l)
        return c

    def items(self, st, gv, node=None):
        """list of gated items; alternatives must agree on the length"""
        def one(s, l):
            return self.seq_items(s, l, node)
        c = self.split(st, gv, one)
        c = restrict(c, st.pc)
        if c is None:
            raise DeadPath()
        ls = leaves(c)
        n = len(ls[0].items)
        if any(len(x.items) != n for x in ls):
            raise Unsupported('sequences of different length')
        if len(ls) == 1:
            return list(ls[0].items)
        return [apply(lambda t, i=i: t.items[i], c) for i in range(n)]

    def collect_gen(self, st, ref):
        out = self.new_list(st, [])

        def h(s, v):
            self.write(s, out.oid, '_', apply(lambda t, x=v: Tup(t.items + (x,)), self.content(s, out)))
        self.run_gen(st, ref, h)
        return self.content(st, out)

    def run_gen(self, st, ref, handler):
        r = self.rec(st, ref)
        if r.f.get('done') == TRUE:
            return
        self.write(st, ref.oid, 'done', TRUE)
        f = r.f['f']
        if isinstance(f, Wrap) and f.k[0] == 'genexp':
            fr, node, first, scopes = f.k[1:]
            self.run_genexp(st, fr, node, first, scopes, handler)
            return
        env = {k.lit: v for k, v in r.f['env'].items}
        v = self.run_func(st, f, env, handler)
        if v != NONE:
            self.write(st, ref.oid, 'ret', v)

    def iterate(self, st, itv, fn, node=None):
        """fn(state, item) for each element, in order; stops when the state dies"""
        def one(s, l):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, '__iter__'):
                    it = self.call_method(s, l, '__iter__', [])
                    return self.split(s, it, one)
                if r.kind == 'gen':
                    self.run_gen(s, l, fn)
                    return NONE
                if r.kind == 'iter' and 'lazy' not in r.f:
                    return self.live_loop(s, l, fn, 'pos')
                if r.kind == 'iter':
                    from . import models
                    for n in range(64 if self.truncated is None else 12):
                        if s.dead:
                            return NONE
                        fn(s, models.lazy_next(self, s, l))
                    if s.dead:
                        return NONE
                    if self.truncated is None:
                        raise Unsupported('unbounded loop')
                    self.truncated = True       # enough for next(): whoever asks for more gets no answer
                    return NONE
            c = self.seq_items(s, l, node)
            live = isinstance(l, Ref) and self.rec(s, l).kind == 'list'

            def two(s2, t):
                for i, x in enumerate(t.items):
                    if s2.dead:
                        break
                    was = self.content(s2, l) if live else None
                    fn(s2, x)
                    if live and not s2.dead and self.content(s2, l) is not was and self.content(s2, l) != was:
                        # the body edits the list it walks: go on by position, as the language does
                        return self.live_loop(s2, l, fn, i + 1)
                return NONE
            return self.split(s, c, two)
        self.split(st, itv, one)

    def live_loop(self, st, l, fn, pos):
        """walk a list (from a fixed index) or an iterator (through its own position), re-reading it at each step"""
        done = []
        for n in range(self.MAX_WALK + 1):
            if st.dead:
                break
            c = self.content(st, l)
            p = st.heap[l.oid].f['pos'] if pos == 'pos' else Const(pos)
            v = restrict(apply(lambda t, q: t.items[q.v] if q.v < len(t.items) else UNDEF, c, p), st.pc)
            if v is None:
                st.pc = FALSE
                break
            end = guard_of(v, UNDEF)
            if end != FALSE:
                if pos == 'pos' and 'cut' in st.heap[l.oid].f:
                    raise Unsupported('far into an unbounded iterator')
                s2 = st.fork(end)
                if not s2.dead:
                    done.append(Exit(s2))
                st.pc = AND(st.pc, NOT(end))
                if st.dead:
                    break
                v = restrict(v, st.pc)
                if v is None:
                    st.pc = FALSE
                    break
            if n == self.MAX_WALK:
                raise Unsupported('loop over a growing list')
            if pos == 'pos':
                self.write(st, l.oid, 'pos', apply(lambda q: Const(q.v + 1), p))
            else:
                pos += 1
            fn(st, v)
        if done:
            self.merge_into(st, done)
        return NONE

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.steps += 1
            if self.steps > self.step_limit:
                raise Budget('analysis step limit')
            self.cur_node = s
            try:
                getattr(self, 'st_' + type(s).__name__, self.st_unknown)(s, st, fr)
            except DeadPath:
                st.pc = FALSE
                return

    def st_unknown(self, n, st, fr):
        raise Unsupported('statement %s' % type(n).__name__)

    def st_Pass(self, n, st, fr):
        pass

    def st_Expr(self, n, st, fr):
        self.ev(n.value, st, fr)

    def st_Global(self, n, st, fr):
        pass

    def st_Nonlocal(self, n, st, fr):
        pass

    def st_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def st_AnnAssign(self, n, st, fr):
        if n.value is not None:
            v = self.ev(n.value, st, fr)
            self.assign(n.target, v, st, fr)

    def st_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(st, fr, t.id, t)
            v = self.ev(n.value, st, fr)
            self.assign_name(st, fr, t.id, self.inplace(st, n.op, cur, v, n))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            cur = self.getattr(st, o, self.mangle(t.attr, fr), t)
            v = self.ev(n.value, st, fr)
            self.setattr(st, o, self.mangle(t.attr, fr), self.inplace(st, n.op, cur, v, n), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            cur = self.getitem(st, o, i, t)
            v = self.ev(n.value, st, fr)
            self.setitem(st, o, i, self.inplace(st, n.op, cur, v, n), t)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, st, op, cur, v, node):
        name = INPLACE.get(type(op))

        def one(s, l):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind == 'list' and isinstance(op, ast.Add):
                    self.list_extend(s, l, v)
                    return l
                if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, name):
                    res = self.call_method(s, l, name, [v])
                    if NOTIMPL not in leaves(res):
                        return res
                if r.kind == 'nd':
                    res = self.binop(s, op, l, v, node)
                    self.nd_write_all(s, l, res)
                    return l
                if r.kind == 'set' and isinstance(op, ast.BitOr):
                    return METHODS[('set', 'update')](self, s, l, [v], {}, node) and l
                if r.kind == 'dict' and isinstance(op, ast.BitOr):
                    METHODS[('dict', 'update')](self, s, l, [v], {}, node)
                    return l
            return self.binop(s, op, l, v, node)
        if all(isinstance(x, Num) for x in leaves(cur)):
            return self.binop(st, op, cur, v, node)
        return self.split(st, cur, one)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.assign_name(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(st, o, self.mangle(t.attr, fr), v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            self.setitem(st, o, i, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def unpack(s, l):
                if isinstance(l, Opq) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    return Tup([Opq('item', l, i) for i in range(len(t.elts))])
                return self.seq_items(s, l, t)
            c = self.split(st, v, unpack)
            c = restrict(c, st.pc)
            if c is None:
                raise DeadPath()
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            need = len(t.elts) - len(star)
            bad = apply(lambda x: TRUE if (len(x.items) < need if star else len(x.items) != need) else FALSE, c)
            self.guard_raise(st, bad, 'ValueError', 'unpack: wrong number of values', t)
            c = restrict(c, st.pc)
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(e, apply(lambda x, i=i: x.items[i], c), st, fr)
                    elif i == k:
                        sizes = {len(l.items) for l in leaves(c)}
                        if len(sizes) == 1:
                            n = sizes.pop()
                            mid = self.new_list(st, [apply(lambda x, j=j: x.items[j], c) for j in range(k, n - after)])
                        else:
                            mid = apply(lambda x: self.new_list(st, list(x.items[k:len(x.items) - after])), c)
                        self.assign(e.value, mid, st, fr)
                    else:
                        self.assign(e, apply(lambda x, j=i - len(t.elts): x.items[j], c), st, fr)
            else:
                vals = [apply(lambda x, i=i: x.items[i], c) for i in range(need)]
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def st_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                for names, oid in fr.scopes:
                    if names is None or t.id in names:
                        self.write(st, oid, t.id, UNDEF)
                        break
                else:
                    self.write(st, fr.module.oid, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                self.delattr(st, self.ev(t.value, st, fr), self.mangle(t.attr, fr), t)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                self.delitem(st, o, i, t)
            else:
                raise Unsupported('del')

    def st_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        fr.ctx.ret.append(Exit(st, v, ('%s:%d' % (fr.module.relpath, n.lineno), fr.info.qualname)))
        st.pc = FALSE

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            if not self.exc_stack:
                self.raise_exc(st, 'RuntimeError', 'No active exception to reraise', n)
            v = self.exc_stack[-1]
        else:
            v = self.ev(n.exc, st, fr)
            if n.cause is not None:
                self.ev(n.cause, st, fr)

        def inst(s, l):
            if isinstance(l, (ClassRef, Builtin)):
                return self.call(s, l, [], {}, n)
            if isinstance(l, Ext) and l.k[0].endswith('.LinAlgError'):
                return self.make_exc(s, 'numpy.linalg.LinAlgError')
            return l
        v = self.split(st, v, inst)
        fr.ctx.exc.append(Exit(st, v, self.where(n)))
        st.pc = FALSE

    def st_Assert(self, n, st, fr):
        c = self.truth(st, self.ev(n.test, st, fr))
        self.guard_raise(st, NOT(c), 'AssertionError', 'assert', n)

    def st_If(self, n, st, fr):
        c = self.truth(st, self.ev(n.test, st, fr))
        self.branch(st, c, lambda s: self.exec_block(n.body, s, fr), lambda s: self.exec_block(n.orelse, s, fr))

    def loop_body(self, n, st, fr, brks):
        """one iteration; continue joins into st, breaks are collected"""
        outer = fr.ctx
        c = Ctx(outer.ret, outer.exc, brks, [], outer.foreign)
        fr.ctx = c
        try:
            self.exec_block(n.body, st, fr)
        finally:
            fr.ctx = outer
        if c.cnt:
            self.merge_into(st, c.cnt)

    def st_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        brks = []
        ls = leaves(it)
        is_gen = any(isinstance(l, Ref) and self.rec(st, l).kind == 'gen' for l in ls)

        def body(s, x):
            if is_gen and self.fr is not fr:
                # running inside the generator's frame: consumer exits unwind through it
                gfr = self.fr
                outer = fr.ctx
                c = Ctx()
                fr.ctx = c
                self.fr = fr
                try:
                    self.assign(n.target, x, s, fr)
                    self.exec_block(n.body, s, fr)
                except DeadPath:
                    s.pc = FALSE
                finally:
                    fr.ctx = outer
                    self.fr = gfr
                if c.cnt:
                    self.merge_into(s, c.cnt)
                for target, lst in ((outer.ret, c.ret), (outer.exc, c.exc), (brks, c.brk)):
                    for e in lst:
                        gfr.ctx.foreign.append((target, e, fr))
                for te in c.foreign:
                    gfr.ctx.foreign.append(te)
                return
            try:
                self.assign(n.target, x, s, fr)
                self.loop_body(n, s, fr, brks)
            except DeadPath:
                s.pc = FALSE
        try:
            self.iterate(st, it, body, n)
        except DeadPath:
            st.pc = FALSE
        if n.orelse and not st.dead:
            self.exec_block(n.orelse, st, fr)
        if brks:
            self.merge_into(st, brks)

    def st_While(self, n, st, fr):
        brks = []
        done = []
        count = sym = 0
        while not st.dead:
            try:
                c = self.truth(st, self.ev(n.test, st, fr))
            except DeadPath:
                st.pc = FALSE
                break
            c = restrict(c, st.pc)
            if c is None:
                st.pc = FALSE
                break
            if c == FALSE:
                break
            if c != TRUE:
                sym += 1
                s2 = st.fork(NOT(c))
                if not s2.dead:
                    done.append(Exit(s2))
                st.pc = AND(st.pc, c)
                if sym > self.MAX_SYM_WHILE:
                    self.truncated.append('loop at %s:%d bounded to %d iterations' % (fr.module.relpath, n.lineno, self.MAX_SYM_WHILE))
                    st.pc = FALSE
                    break
            count += 1
            if count > self.MAX_WHILE:
                raise Unsupported('while loop bound')
            before = (st.pc, dict(st.heap)) if c == TRUE and count in (4, 12) else None
            self.loop_body(n, st, fr, brks)
            if before is not None and not st.dead and st.pc == before[0] and unchanged(st.heap, before[1]):
                # a whole round that writes nothing and whose test holds: it repeats for ever
                try:
                    self.raise_exc(st, 'SystemExit', 'endless loop', n)
                except DeadPath:
                    break
        if done:
            self.merge_into(st, done)
        if n.orelse and not st.dead:
            self.exec_block(n.orelse, st, fr)
        if brks:
            self.merge_into(st, brks)

    def st_Break(self, n, st, fr):
        fr.ctx.brk.append(Exit(st))
        st.pc = FALSE

    def st_Continue(self, n, st, fr):
        fr.ctx.cnt.append(Exit(st))
        st.pc = FALSE

    def st_Import(self, n, st, fr):
        for a in n.names:
            v = self.import_module(st, a.name)
            if a.asname:
                self.assign_name(st, fr, a.asname, v)
            else:
                top = a.name.split('.')[0]
                self.assign_name(st, fr, top, self.import_module(st, top))

    def st_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            parts = fr.module.name.split('.')
            parts = parts[:len(parts) - n.level] if not fr.module.path.endswith('__init__.py') else parts[:len(parts) - n.level + 1]
            base = '.'.join(parts + ([n.module] if n.module else []))
        m = self.import_module(st, base)
        for a in n.names:
            if a.name == '*':
                if not isinstance(m, ModRef):
                    continue
                f = st.heap[self.modules[m.k[0]].oid].f
                if '__all__' in f:
                    names = [x.lit for x in self.items(st, f['__all__'])]
                else:
                    names = [k for k in f if not k.startswith('_')]
                for k in names:
                    v = f.get(k)
                    if v is None:
                        self.raise_exc(st, 'AttributeError', 'module %s has no attribute %s (in __all__)' % (base, k), n)
                    self.assign_name(st, fr, k, v)
            else:
                v = self.getattr(st, m, a.name, n)
                self.assign_name(st, fr, a.asname or a.name, v)

    def st_FunctionDef(self, n, st, fr):
        f = self.make_func(n, st, fr, n.name)
        v = f
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.decorate(st, fr, dv, v, d)
        self.assign_name(st, fr, n.name, v)

    def decorate(self, st, fr, dv, v, node):
        if isinstance(dv, Ext):
            nm = dv.k[0]
            if nm.endswith('abstractmethod'):
                f = v.k[1] if isinstance(v, Wrap) else v
                if isinstance(f, Func):
                    f.info.abstract = True
                return v
            if nm.endswith('overload') or nm.endswith('final') or nm.endswith('no_type_check') or nm.endswith('override'):
                return v
            if nm in ('functools.wraps',):
                return v
            if nm == 'functools.cached_property':
                return Wrap('cached', v)
            if nm in ('functools.lru_cache', 'functools.cache'):
                return Wrap('memo', v)
            if nm == 'contextlib.contextmanager':
                return Wrap('cm', v)
        if isinstance(dv, Opq) and dv.k[0] == 'call' and isinstance(dv.k[1], Ext):
            if dv.k[1].k[0] in ('functools.lru_cache', 'functools.cache'):
                return Wrap('memo', v)
            if dv.k[1].k[0] == 'functools.wraps':
                return v
        if isinstance(dv, Builtin):
            if dv.k[0] == 'property':
                return Wrap('prop', v, NONE, NONE)
            if dv.k[0] == 'staticmethod':
                return Wrap('static', v)
            if dv.k[0] == 'classmethod':
                return Wrap('class', v)
        if isinstance(dv, BMeth) and isinstance(dv.k[1], Wrap) and dv.k[1].k[0] == 'prop':
            p = list(dv.k[1].k)
            p[{'getter': 1, 'setter': 2, 'deleter': 3}[dv.k[0]]] = v
            return Wrap(*p)
        return self.call(st, dv, [v], {}, node)

    def make_func(self, n, st, fr, name):
        info = getattr(n, '_info', None)
        owner = fr.info.ci if isinstance(fr.info, ClassBody) else fr.cls
        if info is None or info.cls is not owner:      # a class statement that runs again makes another class
            info = FuncInfo()
            info.node, info.name, info.module = n, name, fr.module
            info.args = n.args
            loc, glob, nonl, gen, closure = scan_locals(n)
            info.has_closure = closure
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                loc.add(x.arg)
            info.locals, info.globals_, info.nonlocals, info.is_gen = frozenset(loc), glob, nonl, gen
            info.abstract = False
            info.cls = fr.cls if fr.info is None or isinstance(fr.info, ClassBody) else None
            if isinstance(fr.info, ClassBody):
                info.qualname = fr.info.qualname + '.' + name
                info.cls = fr.info.ci
            elif fr.info is not None:
                info.qualname = fr.info.qualname + '.<locals>.' + name
                info.cls = fr.cls
            else:
                info.qualname = name
            n._info = info
        defaults = tuple(self.ev(d, st, fr) for d in n.args.defaults)
        kwd = tuple((x.arg, self.ev(d, st, fr)) for x, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None)
        scopes = fr.scopes if fr.info is not None else ()
        if isinstance(fr.info, ClassBody):
            scopes = fr.info.outer_scopes
        return Func(info, scopes, defaults, kwd)

    def st_ClassDef(self, n, st, fr):
        bases = []
        for b in n.bases:
            v = self.ev(b, st, fr)
            if isinstance(v, Ite):
                raise Unsupported('conditional base class')
            if isinstance(v, Ext) and v.k[0] in self.stand_ins:
                v = self.stand_ins[v.k[0]]
            bases.append(v)
        bases = [b for b in bases if not (isinstance(b, Builtin) and b.k[0] == 'object')]
        for k in n.keywords:
            if k.arg == 'metaclass':
                mv = self.ev(k.value, st, fr)
                if not (isinstance(mv, Ext) and mv.k[0].endswith('ABCMeta')):
                    raise Unsupported('metaclass')
                bases = bases + [Ext('abc.ABC')]
        body, dc_fields = self.data_class(n, st, fr, bases)
        ref = self.alloc(st, 'class', None, {})
        ci = ClassInfo(n.name, bases, fr.module, n, ref.oid)
        ci.dc_fields = dc_fields
        self.classes.append(ci)
        outer = fr.scopes if fr.info is not None and not isinstance(fr.info, ClassBody) else (fr.info.outer_scopes if isinstance(fr.info, ClassBody) else ())
        cb = ClassBody(n, fr, ci, outer)
        cfr = Frame(cb, fr.module, ref.oid, ((None, ref.oid),) + outer, Ctx(fr.ctx.ret, fr.ctx.exc), None, None, ci)
        old = self.fr
        self.fr = cfr
        try:
            self.exec_block(body, st, cfr)
        finally:
            self.fr = old
        self.mro(ci)
        self.class_made(n, st, fr, ci)
        cls_bases = [b for c in self.mro(ci) for b in c.bases if not isinstance(b, ClassRef)]
        ci.slots_only = all('__slots__' in st.heap[c.oid].f for c in self.mro(ci)) and not cls_bases
        v = ci.ref
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            v = self.decorate_class(st, dv, v, d)
        self.assign_name(st, fr, n.name, v)

    def make_class(self, st, n):
        """the class a class statement makes, bound to no name"""
        fr = self.fr
        oid = self.alloc(st, 'frame', None, {}).oid
        info = FuncInfo()
        info.name = info.qualname = '<made>'
        info.locals, info.globals_, info.nonlocals, info.cls = frozenset([n.name]), set(), set(), None
        tmp = Frame(info, fr.module, oid, ((info.locals, oid),) + tuple(fr.scopes), Ctx(fr.ctx.ret, fr.ctx.exc), None, None, None)
        self.st_ClassDef(n, st, tmp)
        return st.heap[oid].f[n.name]

    def data_class(self, n, st, fr, bases):
        """the statements of a class body, with the methods a data class or NamedTuple gets"""
        deco = None
        for d in n.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if isinstance(f, (ast.Name, ast.Attribute)) and getattr(f, 'id', getattr(f, 'attr', '')) == 'dataclass':
                deco = d
        named = any(isinstance(b, ClassRef) and b.ci.name == 'named_tuple' and b.ci.module.name == 'sva.pystd' for b in bases)
        if deco is None and not named:
            return n.body, None
        opts = {k.arg: getattr(k.value, 'value', None) for k in deco.keywords} if isinstance(deco, ast.Call) else {}
        if any(k not in ('eq', 'repr', 'frozen', 'order', 'unsafe_hash', 'slots', 'init', 'kw_only') for k in opts) or opts.get('order'):
            raise Unsupported('dataclass options')
        fields = []
        for b in bases:
            if isinstance(b, ClassRef) and getattr(b.ci, 'dc_fields', None):
                fields += [(nm, None, 'inherited', True) for nm, _, _, _ in b.ci.dc_fields]
                if any(d != 'required' for _, _, d, _ in b.ci.dc_fields):
                    raise Unsupported('inherited defaults of a dataclass')
        body, have = [], set()
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.Assign)):
                have |= {s.name} if isinstance(s, ast.FunctionDef) else {t.id for t in s.targets if isinstance(t, ast.Name)}
            if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)) or 'ClassVar' in ast.dump(s.annotation):
                body.append(s)
                continue
            nm, v = s.target.id, s.value
            if isinstance(v, ast.Call) and getattr(v.func, 'id', getattr(v.func, 'attr', '')) == 'field':
                kw = {k.arg: k.value for k in v.keywords}
                if set(kw) - {'default', 'default_factory', 'repr', 'compare'} or v.args:
                    raise Unsupported('dataclass field options')
                if not all(getattr(kw[k], 'value', None) is True for k in ('repr', 'compare') if k in kw):
                    raise Unsupported('dataclass field options')
                if 'default_factory' in kw:
                    fields.append((nm, ast.unparse(kw['default_factory']), 'factory', True))
                    continue
                v = kw.get('default')
            if v is None:
                fields.append((nm, None, 'required', True))
            else:
                body.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(nm, ast.Store()), s)], v), s))
                fields.append((nm, nm, 'default', True))
        sig, lines = [], []
        for nm, d, how, _ in fields:
            sig.append(nm if how in ('required', 'inherited') else '%s=%s' % (nm, d if how == 'default' else '__sva_missing'))
            lines.append('    object.__setattr__(self, %r, %s)' % (nm, nm if how != 'factory' else '(%s)() if %s is __sva_missing else %s' % (d, nm, nm)))
        if '__post_init__' in have:
            lines.append('    self.__post_init__()')
        names = repr(tuple(f[0] for f in fields))
        text = ['__sva_missing = __sva_std_MISSING']
        if '__init__' not in have and opts.get('init', True):
            text.append('def __init__(self%s):\n%s' % (''.join(', ' + s for s in sig), '\n'.join(lines) or '    pass'))
        if named:
            text.append('_fields = ' + names)
        else:
            if '__repr__' not in have and opts.get('repr', True):
                text.append('def __repr__(self):\n    return __sva_std_repr_of(self, %s)' % names)
            if '__eq__' not in have and opts.get('eq', True):
                text.append('def __eq__(self, other):\n    return __sva_std_eq_of(self, other, %s)' % names)
            if opts.get('frozen'):
                text.append('def __setattr__(self, name, value):\n    raise AttributeError(name)')
                text.append('def __hash__(self):\n    return hash((%s))' % ''.join('self.%s, ' % f[0] for f in fields))
        key = '_sva_body'
        if getattr(n, key, None) is None:
            made = ast.parse('\n'.join(text)).body
            for s in made:
                for x in ast.walk(s):
                    if hasattr(x, 'lineno'):
                        ast.copy_location(x, n)
            n._sva_body = body + made
        return n._sva_body, fields

    def class_made(self, n, st, fr, ci):
        """what happens when a class statement is done: names for descriptors, members of enumerations, __init_subclass__"""
        enum = any(c.name == 'Enum' and c.module.name == 'sva.pystd' for c in self.mro(ci)[1:])
        ci.enum = []
        for k, v in list(st.heap[ci.oid].f.items()):
            if enum and not k.startswith('_') and not isinstance(v, (Func, Wrap)) and v is not UNDEF:
                if isinstance(v, Ext) or isinstance(v, Opq):
                    raise Unsupported('enumeration member')
                e = self.alloc(st, 'inst', ci, {'name': lit(k)})
                self.call(st, self.cls_lookup(st, ci, '__init__')[0], [e] + (list(v.items) if isinstance(v, Tup) and self.cls_lookup(st, ci, '__init__')[1].name != 'Enum' else [v]), {}, n)
                self.write(st, e.oid, 'value', v)
                self.write(st, ci.oid, k, e)
                ci.enum.append((v, e))
            elif isinstance(v, Ref) and st.heap[v.oid].kind == 'inst' and isinstance(st.heap[v.oid].cls, ClassInfo) \
                    and self.cls_lookup(st, st.heap[v.oid].cls, '__set_name__'):
                self.call_method(st, v, '__set_name__', [ci.ref, lit(k)])
        m = self.cls_lookup(st, ci, '__init_subclass__', after=ci)
        if m:
            f = m[0].k[1] if isinstance(m[0], Wrap) else m[0]
            self.call(st, f, [ci.ref], {k.arg: self.ev(k.value, st, fr) for k in n.keywords if k.arg and k.arg != 'metaclass'}, n)

    def descriptor(self, st, m, which):
        """is the class attribute m = (value, owner) an object with a descriptor method of that name"""
        if m and isinstance(m[0], Ref) and m[0].oid in st.heap:
            r = st.heap[m[0].oid]
            return r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(st, r.cls, which) is not None
        return False

    def decorate_class(self, st, dv, v, node):
        nm = dv.k[0] if isinstance(dv, Ext) else (dv.k[1].k[0] if isinstance(dv, Opq) and dv.k[0] == 'call' and isinstance(dv.k[1], Ext) else '')
        if nm.endswith('total_ordering') or nm.endswith('final') or nm.endswith('runtime_checkable') or nm.endswith('dataclass') or nm.endswith('enum.unique'):
            return v
        if isinstance(dv, (Func, Bound)):
            return self.call(st, dv, [v], {}, node)
        raise Unsupported('class decorator %s' % nm)

    def st_Try(self, n, st, fr):
        outer = fr.ctx
        mid = Ctx() if n.finalbody else outer
        body = Ctx(mid.ret, [], mid.brk, mid.cnt, mid.foreign)
        fr.ctx = body
        try:
            self.exec_block(n.body, st, fr)
        finally:
            fr.ctx = mid
        try:
            if n.orelse and not st.dead:
                self.exec_block(n.orelse, st, fr)
            handled = [[] for _ in n.handlers]
            for e in body.exc:
                if e.pc == FALSE:
                    continue
                self.dispatch(e, n.handlers, handled, mid, fr)
            for h, entries in zip(n.handlers, handled):
                if not entries:
                    continue
                pc, heap, val = self.merge_many([(e.pc, e.heap, e.val) for e in entries])
                hs = State(dict(heap), pc)
                if h.name:
                    self.assign_name(hs, fr, h.name, val)
                self.exc_stack.append(val)
                try:
                    self.exec_block(h.body, hs, fr)
                finally:
                    self.exc_stack.pop()
                if not hs.dead:
                    if all(e.may for e in entries):
                        # a may-exit overlaps the main path: keep it as an alternative under a fresh condition
                        self.serial += 1
                        g = dd.bvar(('exc-taken', self.serial))
                        hs.pc = AND(hs.pc, g)
                        if not st.dead:
                            st.pc = AND(st.pc, NOT(g))
                    self.merge_into(st, [Exit(hs)])
        finally:
            fr.ctx = outer
        if n.finalbody:
            self.finish(st, fr, mid, outer, lambda s, kind: self.exec_block(n.finalbody, s, fr))

    st_TryStar = st_Try

    def finish(self, st, fr, mid, outer, fn):
        """run fn on the normal state and on every abrupt exit collected in mid, forwarding to outer"""
        if not st.dead:
            try:
                fn(st, 'normal')
            except DeadPath:
                st.pc = FALSE
        for src, dst, kind in ((mid.ret, outer.ret, 'ret'), (mid.exc, outer.exc, 'exc'), (mid.brk, outer.brk, 'brk'), (mid.cnt, outer.cnt, 'cnt')):
            for e in src:
                s = e.state()
                if s.dead:
                    continue
                try:
                    fn(s, kind)
                except DeadPath:
                    s.pc = FALSE
                if not s.dead:
                    dst.append(e.with_state(s))
        for target, e, consumer in mid.foreign:
            s = e.state()
            if s.dead:
                continue
            try:
                fn(s, 'foreign')
            except DeadPath:
                s.pc = FALSE
            if not s.dead:
                outer.foreign.append((target, e.with_state(s), consumer))

    def dispatch(self, e, handlers, handled, mid, fr):
        rest = e
        st = e.state()
        for h, bucket in zip(handlers, handled):
            if h.type is None:
                bucket.append(rest)
                return
            pats = self.ev(h.type, st, fr)
            pats = list(pats.items) if isinstance(pats, Tup) else [pats]
            matched = FALSE
            for leaf in leaves(rest.val):
                cls = self.class_of(st, leaf)
                rs = [self.exc_matches(cls, p) for p in pats]
                g = guard_of(rest.val, leaf)
                if any(r is True for r in rs):
                    matched = OR(matched, g)
                elif any(r is None for r in rs):
                    self.serial += 1
                    matched = OR(matched, AND(g, dd.bvar(('excmatch', self.serial))))
                elif rest.may and any(isinstance(p, (Builtin, ClassRef, Ext)) for p in pats):
                    # an external failure of unknown class may or may not be of the caught class
                    self.serial += 1
                    matched = OR(matched, AND(g, dd.bvar(('excmatch', self.serial))))
            s1 = State(dict(rest.heap), AND(rest.pc, matched))
            if not s1.dead:
                bucket.append(rest.with_state(s1))
            s2 = State(dict(rest.heap), AND(rest.pc, NOT(matched)))
            if s2.dead:
                return
            rest = rest.with_state(s2)
        mid.exc.append(rest)

    def exit_class(self, st, e):
        """class of the exception of an exit, as passed to __exit__"""
        def one(l):
            try:
                c = self.class_of(st, l)
            except Unsupported:
                c = None
            return c if isinstance(c, (ClassRef, Builtin, Ext)) else Opq('exctype', l)
        return apply(one, e.val)

    def st_With(self, n, st, fr):
        self.with_items(n, list(n.items), st, fr)

    def with_items(self, n, items, st, fr):
        if not items:
            self.exec_block(n.body, st, fr)
            return
        item = items[0]
        mgr = self.ev(item.context_expr, st, fr)

        def one(s, l):
            if isinstance(l, Ref) and self.rec(s, l).kind == 'obj' and 'cm' in self.rec(s, l).f:
                self.with_cm(n, items, l, s, fr)
                return NONE
            opaque = isinstance(l, (Opq, Ext))
            if not opaque:
                m = self.getattr(s, l, '__exit__', item.context_expr)
                v = self.call_method(s, l, '__enter__', [])
            else:
                v = Opq('enter', l)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, s, fr)
            outer = fr.ctx
            mid = Ctx()
            fr.ctx = mid
            try:
                self.with_items(n, items[1:], s, fr)
            except DeadPath:
                s.pc = FALSE
            finally:
                fr.ctx = outer
            if opaque:
                if s.dead:
                    pass
                for a, b in ((mid.ret, outer.ret), (mid.exc, outer.exc), (mid.brk, outer.brk), (mid.cnt, outer.cnt), (mid.foreign, outer.foreign)):
                    b.extend(a)
                return NONE
            suppressed = []

            def fin(s2, kind):
                if kind == 'exc':
                    return
                self.call(s2, m, [NONE, NONE, NONE], {}, item.context_expr)
            excs, mid.exc = mid.exc, []
            self.finish(s, fr, mid, outer, fin)
            for e in excs:
                s2 = e.state()
                if s2.dead:
                    continue
                try:
                    r = self.call(s2, m, [self.exit_class(s2, e), e.val, Opq('tb')], {}, item.context_expr)
                    c = self.truth(s2, r)
                except DeadPath:
                    continue
                c = restrict(c, s2.pc)
                if c is None:
                    continue
                if c != FALSE:
                    s3 = s2.fork(c)
                    if not s3.dead:
                        suppressed.append(Exit(s3))
                if c != TRUE:
                    s2.pc = AND(s2.pc, NOT(c))
                    if not s2.dead:
                        outer.exc.append(e.with_state(s2))
            if suppressed:
                self.merge_into(s, suppressed)
            return NONE
        self.split(st, mgr, one)

    def with_cm(self, n, items, l, st, fr):
        r = self.rec(st, l)
        f = r.f['cm']
        args = list(r.f['args'].items)
        kw = {k.lit: v for k, v in r.f['kw'].items}
        fn = f.k[1] if isinstance(f, Bound) else f
        entered = []

        def handler(s, v):
            gfr = self.fr
            entered.append(1)
            self.fr = fr
            outer = fr.ctx
            c = Ctx()
            fr.ctx = c
            try:
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v, s, fr)
                self.with_items(n, items[1:], s, fr)
            except DeadPath:
                s.pc = FALSE
            finally:
                fr.ctx = outer
                self.fr = gfr
            for target, lst in ((outer.ret, c.ret), (outer.brk, c.brk), (outer.cnt, c.cnt)):
                for e in lst:
                    gfr.ctx.foreign.append((target, e, fr))
            gfr.ctx.foreign.extend(c.foreign)
            gfr.ctx.exc.extend(c.exc)
        self.call_func(st, fn, args, kw, n, handler=handler)

    def st_Match(self, n, st, fr):
        subj = self.ev(n.subject, st, fr)
        if isinstance(subj, Ite) and any(isinstance(q, (ast.MatchSequence, ast.MatchMapping)) or isinstance(q, ast.MatchClass) and (q.patterns or q.kwd_patterns)
                                         for c in n.cases for q in ast.walk(c.pattern)):
            def one(s, l):
                self.match_cases(n.cases, l, s, fr)
                return NONE
            self.split(st, subj, one)
            return
        self.match_cases(n.cases, subj, st, fr)

    def match_cases(self, cases, subj, st, fr):
        if not cases:
            return
        c = cases[0]
        cond = self.match_pat(c.pattern, subj, st, fr)
        if c.guard is not None and cond != FALSE:
            def guarded(s):
                g = self.truth(s, self.ev(c.guard, s, fr))
                self.branch(s, g, lambda s: self.exec_block(c.body, s, fr), lambda s: self.match_cases(cases[1:], subj, s, fr))
            self.branch(st, cond, guarded, lambda s: self.match_cases(cases[1:], subj, s, fr))
            return
        self.branch(st, cond, lambda s: self.exec_block(c.body, s, fr), lambda s: self.match_cases(cases[1:], subj, s, fr))

    def match_pat(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(st, subj, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return apply(lambda l: TRUE if l == Const(p.value) else FALSE, subj)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.match_pat(p.pattern, subj, st, fr)
            else:
                c = TRUE
            if p.name:
                self.assign_name(st, fr, p.name, subj)
            return c
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                c = OR(c, self.match_pat(q, subj, st, fr))
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            cls = self.ev(p.cls, st, fr)
            return BUILTINS['isinstance'](self, st, [subj, cls], {}, p)
        if isinstance(p, ast.MatchSequence):
            if isinstance(subj, Ite):
                raise Unsupported('match of alternatives')
            if isinstance(subj, (Str, Num, Const, Opq)) or isinstance(subj, Ref) and self.rec(st, subj).kind not in ('list', 'inst'):
                return FALSE
            if isinstance(subj, Ref) and self.rec(st, subj).kind == 'inst':
                if not any(c.name == 'named_tuple' for c in self.mro(self.rec(st, subj).cls) if isinstance(c, ClassInfo)):
                    return FALSE
            items = self.items(st, subj)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if len(items) < len(p.patterns) - len(star) or not star and len(items) != len(p.patterns):
                return FALSE
            c = TRUE
            if star:
                k = star[0]
                tail = len(p.patterns) - k - 1
                pairs = list(zip(p.patterns[:k], items[:k])) + list(zip(p.patterns[k + 1:], items[len(items) - tail:] if tail else []))
                if p.patterns[k].name:
                    self.assign_name(st, fr, p.patterns[k].name, self.new_list(st, items[k:len(items) - tail]))
            else:
                pairs = list(zip(p.patterns, items))
            for q, x in pairs:
                if c == FALSE:
                    return FALSE
                c = AND(c, self.match_pat(q, x, st, fr))
            return c
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(subj, Ref) and self.rec(st, subj).kind == 'dict'):
                return FALSE
            m = self.content(st, subj)
            if isinstance(m, Ite):
                raise Unsupported('match of alternatives')
            c, used = TRUE, []
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, st, fr)
                hit = [(kk, v) for kk, v in m.items if kk == kv]
                if not hit:
                    if any(self.eq(st, kk, kv, True) != FALSE for kk, _ in m.items):
                        raise Unsupported('match of symbolic keys')
                    return FALSE
                used.append(hit[0][0])
                c = AND(c, self.match_pat(q, hit[0][1], st, fr))
            if p.rest:
                self.assign_name(st, fr, p.rest, self.new_dict(st, [(k, v) for k, v in m.items if k not in used]))
            return c
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, st, fr)
            c = BUILTINS['isinstance'](self, st, [subj, cls], {}, p)
            if c == FALSE:
                return FALSE
            if c != TRUE:
                raise Unsupported('match of alternatives')
            names = []
            if p.patterns:
                if isinstance(cls, Builtin) and len(p.patterns) == 1:
                    return self.match_pat(p.patterns[0], subj, st, fr)
                names = [x.lit for x in self.items(st, self.getattr(st, cls, '__match_args__', p))]
            for nm, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                missing = self.getattr(st, subj, nm, p, default=UNDEF)
                if missing is UNDEF:
                    return FALSE
                c = AND(c, self.match_pat(q, missing, st, fr))
                if c == FALSE:
                    return FALSE
            return c
        raise Unsupported('match pattern')

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        if st.dead:
            raise DeadPath()
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def ex_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, bool) or v is None:
            return Const(v)
        if isinstance(v, int):
            return N.const(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return N.opaque(('float', str(v)))
            return N.const(N.F(repr(v)))
        if isinstance(v, str):
            return lit(v)
        if isinstance(v, (complex, bytes)):
            raise Unsupported(type(v).__name__ + ' constant')
        return Const(v)

    def ex_Name(self, n, st, fr):
        return self.lookup_name(st, fr, n.id, n)

    def ex_Attribute(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        self.cur_node = n
        return self.getattr(st, o, self.mangle(n.attr, fr), n)

    def ex_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        # walrus in a comprehension binds in the enclosing function scope
        for names, oid in fr.scopes:
            if names is not None and isinstance(names, CompNames):
                continue
            if names is None or n.target.id in names:
                self.write(st, oid, n.target.id, v)
                return v
        self.assign_name(st, fr, n.target.id, v)
        return v

    def ex_Tuple(self, n, st, fr):
        return Tup(self.ev_list(n.elts, st, fr))

    def ex_List(self, n, st, fr):
        return self.new_list(st, self.ev_list(n.elts, st, fr))

    def ev_list(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.items(st, self.ev(e.value, st, fr), e))
            else:
                out.append(self.ev(e, st, fr))
        return out

    def ex_Set(self, n, st, fr):
        ref = self.alloc(st, 'set', None, {'_': Map()})
        for v in self.ev_list(n.elts, st, fr):
            METHODS[('set', 'add')](self, st, ref, [v], {}, n)
        return ref

    def ex_Dict(self, n, st, fr):
        ref = self.new_dict(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                METHODS[('dict', 'update')](self, st, ref, [self.ev(v, st, fr)], {}, n)
            else:
                kv = self.ev(k, st, fr)
                self.setitem(st, ref, kv, self.ev(v, st, fr), n)
        return ref

    def ex_IfExp(self, n, st, fr):
        c = self.truth(st, self.ev(n.test, st, fr))
        box = {}

        def run(key, node):
            def f(s):
                box[key] = self.ev(node, s, fr)
            return f
        c = restrict(c, st.pc)
        if c is None:
            raise DeadPath()
        self.branch(st, c, run(1, n.body), run(0, n.orelse))
        return self._pick(st, c, box.get(1), box.get(0))

    def _pick(self, st, c, a, b):
        if st.dead:
            raise DeadPath()
        if a is None:
            return b
        if b is None:
            return a
        return ite(c, a, b)

    def ex_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)

        def rec(i, s):
            v = self.ev(n.values[i], s, fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            c = restrict(c, s.pc)
            if c is None:
                raise DeadPath()
            box = {}

            def go(s2):
                box['v'] = rec(i + 1, s2)

            def stay(s2):
                box['k'] = restrict(v, s2.pc)
            if is_and:
                self.branch(s, c, go, stay)
                return self._pick(s, c, box.get('v'), box.get('k'))
            self.branch(s, c, stay, go)
            return self._pick(s, c, box.get('k'), box.get('v'))
        return rec(0, st)

    def ex_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(st, v))

        def one(s, l):
            if isinstance(l, Const) and isinstance(l.v, bool):
                l = N.const(int(l.v))
            if isinstance(l, Num):
                if isinstance(n.op, ast.USub):
                    return N.neg(l)
                if isinstance(n.op, ast.UAdd):
                    return l
                if isinstance(n.op, ast.Invert):
                    return N.sub(N.neg(l), N.ONE)
            if isinstance(l, Ref):
                r = self.rec(s, l)
                name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)]
                if r.kind == 'nd':
                    return self.nd_map(s, l, lambda x: apply(N.neg, x)) if name == '__neg__' else l
                if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, name):
                    return self.call_method(s, l, name, [])
            if isinstance(l, Opq):
                return Opq('unary', type(n.op).__name__, l)
            self.raise_exc(s, 'TypeError', 'bad operand type for unary operator', n)
        if all(isinstance(l, Num) for l in leaves(v)) and isinstance(n.op, ast.USub):
            return apply(N.neg, v)
        return self.split(st, v, one)

    def ex_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        self.cur_node = n
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node=None):
        if all(isinstance(l, Num) for l in leaves(a)) and all(isinstance(l, Num) for l in leaves(b)):
            if isinstance(op, (ast.Div, ast.Mod, ast.FloorDiv)):
                z = apply(lambda l: TRUE if l.const() == 0 else FALSE, b)
                if z != FALSE:
                    self.guard_raise(st, z, 'ZeroDivisionError', 'division by zero', node)
                    b = restrict(b, st.pc)
                    a = restrict(a, st.pc)
                    if a is None or b is None:
                        raise DeadPath()
            if isinstance(op, ast.Div):
                return apply(lambda x, y: NUMOPS[ast.Div](x, y) if y.const() != 0 else UNDEF, a, b)
            if type(op) in NUMOPS:
                try:
                    return apply(NUMOPS[type(op)], a, b)
                except ZeroDivisionError:
                    raise Unsupported('division by a conditional zero')
        return self.split(st, a, lambda s, la: self.split(s, b, lambda s2, lb: self.binop_leaf(s2, op, la, lb, node)))

    def binop_leaf(self, st, op, a, b, node):
        if isinstance(a, Const) and isinstance(a.v, bool):
            a = N.const(int(a.v))
        if isinstance(b, Const) and isinstance(b.v, bool):
            b = N.const(int(b.v))
        if isinstance(a, Num) and isinstance(b, Num):
            if isinstance(op, (ast.Div, ast.Mod, ast.FloorDiv)) and b.const() == 0:
                self.raise_exc(st, 'ZeroDivisionError', 'division by zero', node)
            if type(op) in NUMOPS:
                return NUMOPS[type(op)](a, b)
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and ca.denominator == cb.denominator == 1:
                x, y = int(ca), int(cb)
                f = {ast.BitAnd: lambda: x & y, ast.BitOr: lambda: x | y, ast.BitXor: lambda: x ^ y,
                     ast.LShift: lambda: x << y, ast.RShift: lambda: x >> y}.get(type(op))
                if f:
                    return N.const(f())
            raise Unsupported('numeric operator %s' % type(op).__name__)
        if isinstance(a, Str):
            if isinstance(op, ast.Mod):
                return self.str_format(st, a, b, node)
            if isinstance(op, ast.Add) and isinstance(b, Str):
                return Str(a.parts + b.parts)
            if isinstance(op, ast.Mult) and isinstance(b, Num) and b.const() is not None:
                return Str(a.parts * max(0, int(b.const())))
            if isinstance(op, ast.Mult) and isinstance(b, Num):
                return Str((('opq', ('strmul', a, b)),))
            if isinstance(op, ast.Add) and isinstance(b, Opq):
                return Str(a.parts + (('opq', b),))
        if isinstance(b, Str) and isinstance(op, ast.Mult) and isinstance(a, Num) and a.const() is not None:
            return Str(b.parts * max(0, int(a.const())))
        if isinstance(b, Str) and isinstance(a, Opq) and isinstance(op, ast.Add):
            return Str((('opq', a),) + b.parts)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Num) and y.const() is not None:
                    if isinstance(x, Tup):
                        return Tup(x.items * max(0, int(y.const())))
                    if isinstance(x, Ref) and self.rec(st, x).kind == 'list':
                        return self.split(st, self.content(st, x), lambda s, t: self.new_list(s, t.items * max(0, int(y.const()))))
        ra = self.rec(st, a) if isinstance(a, Ref) else None
        rb = self.rec(st, b) if isinstance(b, Ref) else None
        if ra is not None and rb is not None and ra.kind == rb.kind == 'list' and isinstance(op, ast.Add):
            return self.split(st, ra.f['_'], lambda s, x: self.split(
                s, self.content(s, b), lambda s2, y: self.new_list(s2, x.items + y.items)))
        if ra is not None and ra.kind == 'nd' or rb is not None and rb.kind == 'nd':
            if isinstance(op, ast.MatMult):
                return EXT['numpy.dot'](self, st, [a, b], {}, node)
            return self.nd_binop(st, op, a, b, node)
        if ra is not None and ra.kind in ('set', 'dict') and rb is not None and rb.kind in ('set', 'dict'):
            nm = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference'}.get(type(op))
            if isinstance(op, ast.BitXor) and ra.kind == rb.kind == 'set':
                x = METHODS[('set', 'difference')](self, st, a, [b], {}, node)
                return METHODS[('set', 'union')](self, st, x, [METHODS[('set', 'difference')](self, st, b, [a], {}, node)], {}, node)
            if nm and ra.kind == 'set':
                return METHODS[('set', nm)](self, st, a, [b], {}, node)
            if nm == 'union':
                d = METHODS[('dict', 'copy')](self, st, a, [], {}, node)
                METHODS[('dict', 'update')](self, st, d, [b], {}, node)
                return d
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) and ra is not None and rb is not None and \
                {ra.kind, rb.kind} <= {'list', 'set'}:
            raise Unsupported('set operation on a view of a dictionary')
        name = BINNAMES[type(op)]

        def klass(r):
            return r.cls if r is not None and r.kind == 'inst' and isinstance(r.cls, ClassInfo) else None
        ca, cb = klass(ra), klass(rb)
        tries = []
        if ca and self.cls_lookup(st, ca, '__%s__' % name):
            tries.append((a, '__%s__' % name, b))
        if cb and self.cls_lookup(st, cb, '__r%s__' % name) and ca is not cb:
            t = (b, '__r%s__' % name, a)
            if ca and ca in self.mro(cb) and self.cls_lookup(st, cb, '__r%s__' % name) != self.cls_lookup(st, ca, '__r%s__' % name):
                tries.insert(0, t)
            else:
                tries.append(t)
        if tries:
            return self.try_ops(st, tries, op, node)
        if isinstance(a, (Opq, Ext)) or isinstance(b, (Opq, Ext)):
            if isinstance(a, Ext) and isinstance(b, (Ext, Const, ClassRef, Builtin)) or isinstance(op, ast.BitOr):
                return Ext('typing.expr')
            return N.opaque(('binop', name, a, b)) if isinstance(a, Num) or isinstance(b, Num) else Opq('binop', name, a, b)
        if isinstance(a, (ClassRef, Builtin)) and isinstance(op, ast.BitOr):
            return Ext('typing.expr')
        self.raise_exc(st, 'TypeError', 'unsupported operand type(s) for %s: %s and %s' % (
            name, self.class_of(st, a), self.class_of(st, b)), node)

    def try_ops(self, st, tries, op, node):
        x, m, y = tries[0]
        r = self.call_method(st, x, m, [y])
        if NOTIMPL in leaves(r):
            g = restrict(guard_of(r, NOTIMPL), st.pc)
            if g is None:
                raise DeadPath()
            box = {}

            def other(s):
                if len(tries) > 1:
                    box['v'] = self.try_ops(s, tries[1:], op, node)
                else:
                    self.raise_exc(s, 'TypeError', 'unsupported operand type(s) for %s' % BINNAMES[type(op)], node)
            self.branch(st, g, other, lambda s: None)
            if st.dead:
                raise DeadPath()
            v = box.get('v')
            if v is None:
                return restrict(r, st.pc)
            return ite(g, v, r)
        return r

    def ex_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        result = None
        gate = TRUE

        def rec(i, left, s):
            right = self.ev(n.comparators[i], s, fr)
            self.cur_node = n
            v = self.compare(s, n.ops[i], left, right, n)
            if i == len(n.ops) - 1:
                return v
            c = restrict(self.truth(s, v), s.pc)
            if c is None:
                raise DeadPath()
            box = {}

            def go(s2):
                box['v'] = rec(i + 1, right, s2)

            def stay(s2):
                box['k'] = FALSE
            self.branch(s, c, go, stay)
            return self._pick(s, c, box.get('v'), box.get('k'))
        return rec(0, left, st)

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return NOT(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(st, b, a, node)
        if isinstance(op, ast.NotIn):
            return NOT(self.contains(st, b, a, node))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            simple = (Num, Const, Str)
            if not (all(isinstance(l, simple) for l in leaves(a)) and all(isinstance(l, simple) for l in leaves(b))):
                def one(s, x, y):
                    for l in (x, y):
                        if isinstance(l, Ref):
                            r = self.rec(s, l)
                            if r.kind == 'inst':
                                return self.rich_eq(s, x, y, '__eq__' if isinstance(op, ast.Eq) else '__ne__')
                            if r.kind == 'nd':
                                return self.nd_compare(s, op, x, y, node)
                    r = self.eq_leaf(s, x, y)
                    return r if isinstance(op, ast.Eq) else NOT(r)
                return self.split(st, a, lambda s, x: self.split(s, b, lambda s2, y: one(s2, x, y)))
            r = self.eq(st, a, b)
            return r if isinstance(op, ast.Eq) else NOT(r)
        return self.order(st, op, a, b, node)

    def is_(self, a, b):
        def f(x, y):
            if isinstance(x, Num) and isinstance(y, Num):
                return dd.sign_ite(N.sub(x, y), FALSE, TRUE, FALSE)
            if isinstance(x, Const) and isinstance(y, Const):
                return TRUE if x == y else FALSE
            if isinstance(x, Opq) or isinstance(y, Opq):
                if x == y:
                    return TRUE
                if isinstance(x, Ref) or isinstance(y, Ref):
                    return FALSE
                k1, k2 = sorted((x, y), key=repr)
                return dd.bvar(('is', k1, k2))
            if x != y and isinstance(x, Str) and isinstance(y, Str) and (x.lit is None or y.lit is None):
                k1, k2 = sorted((x, y), key=repr)       # equal words may or may not be one object
                return AND(self.eq_simple(x, y), dd.bvar(('is', k1, k2)))
            return TRUE if type(x) is type(y) and x == y else FALSE
        return apply(f, a, b)

    def order(self, st, op, a, b, node):
        if all(isinstance(l, Num) for l in leaves(a)) and all(isinstance(l, Num) for l in leaves(b)):
            return apply(lambda x, y: order_num(op, x, y), a, b)

        def one(s, x, y):
            if isinstance(x, Const) and isinstance(x.v, bool):
                x = N.const(int(x.v))
            if isinstance(y, Const) and isinstance(y.v, bool):
                y = N.const(int(y.v))
            if isinstance(x, Num) and isinstance(y, Num):
                return order_num(op, x, y)
            if isinstance(x, Tup) and isinstance(y, Tup):
                return self.order_seq(s, op, x.items, y.items, node)
            if isinstance(x, Str) and isinstance(y, Str):
                if x.lit is not None and y.lit is not None:
                    p, q = x.lit, y.lit
                    return TRUE if {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)] else FALSE
                return dd.bvar(('strord', type(op).__name__, x, y))
            if isinstance(x, Ref) and isinstance(y, Ref):
                rx, ry = self.rec(s, x), self.rec(s, y)
                if rx.kind == ry.kind == 'list':
                    return self.split(s, rx.f['_'], lambda s2, p: self.split(
                        s2, ry.f['_'], lambda s3, q: self.order_seq(s3, op, p.items, q.items, node)))
            for l in (x, y):
                if isinstance(l, Ref) and self.rec(s, l).kind == 'nd':
                    return self.nd_compare(s, op, x, y, node)
            if isinstance(x, Ref) and self.rec(s, x).kind == 'inst' and isinstance(self.rec(s, x).cls, ClassInfo):
                nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
                if self.cls_lookup(s, self.rec(s, x).cls, nm):
                    return self.call_method(s, x, nm, [y])
            if isinstance(x, (Opq, Ext)) or isinstance(y, (Opq, Ext)):
                return dd.bvar(('ord', type(op).__name__, x, y))
            for l, o, nm in ((y, x, {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}[type(op)]),):
                if isinstance(l, Ref) and self.rec(s, l).kind == 'inst' and isinstance(self.rec(s, l).cls, ClassInfo):
                    if self.cls_lookup(s, self.rec(s, l).cls, nm):
                        return self.call_method(s, l, nm, [o])
            if all(isinstance(l, Ref) and self.rec(s, l).kind == 'set' for l in (x, y)):
                xs, ys = self.items(s, x, node), self.items(s, y, node)
                if isinstance(op, (ast.Gt, ast.GtE)):
                    xs, ys = ys, xs
                from . import models
                r = models.set_relation(self, s, 'issubset', xs, ys)
                if isinstance(op, (ast.Lt, ast.Gt)):
                    r = AND(r, NOT(models.set_relation(self, s, 'issubset', ys, xs)))
                return r
            self.raise_exc(s, 'TypeError', "'%s' not supported between instances of %s and %s" % (
                type(op).__name__, self.class_of(s, x), self.class_of(s, y)), node)
        return self.split(st, a, lambda s, x: self.split(s, b, lambda s2, y: one(s2, x, y)))

    def order_seq(self, st, op, xs, ys, node):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if not xs or not ys:
            lx, ly = len(xs), len(ys)
            return TRUE if {ast.Lt: lx < ly, ast.LtE: lx <= ly, ast.Gt: lx > ly, ast.GtE: lx >= ly}[type(op)] else FALSE
        e = self.eq(st, xs[0], ys[0], True)
        sop = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if e == TRUE:
            return self.order_seq(st, op, xs[1:], ys[1:], node)
        lt = self.order(st, sop, xs[0], ys[0], node)
        if e == FALSE:
            return lt
        return ite(e, self.order_seq(st, op, xs[1:], ys[1:], node), lt)

    def contains(self, st, c, x, node):
        def one(s, l):
            if isinstance(l, Str):
                def f(y):
                    if isinstance(y, Str):
                        if l.lit is not None and y.lit is not None:
                            return TRUE if y.lit in l.lit else FALSE
                        if y.lit is not None and any(isinstance(p, str) and y.lit in p for p in l.parts):
                            return TRUE
                        if y.lit is not None and all(isinstance(p, str) or (p[0] == 'sym' and y.lit in NAME_SEPARATORS) for p in l.parts):
                            return FALSE          # symbolic names are generic identifiers
                        return dd.bvar(('strin', y, l))
                    return dd.bvar(('strin', y, l))
                return apply(f, x)
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind in ('dict', 'set'):
                    return self.split(s, r.f['_'], lambda s2, m: self.split(s2, x, lambda s3, k: self.key_in(s3, m, k, node)))
                if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, '__contains__'):
                    return self.truth(s, self.call_method(s, l, '__contains__', [x]))
            if isinstance(l, Opq):
                return dd.bvar(('in', l, x)) if not isinstance(x, Ite) else dd.bvar(('in', l, id(x)))
            r = FALSE
            for y in self.items(s, l, node):
                r = OR(r, self.eq(s, y, x, True))
                if r == TRUE:
                    break
            return r
        return self.split(st, c, one)

    def hashable(self, st, k, node):
        if isinstance(k, Ref):
            r = self.rec(st, k)
            if r.kind in ('list', 'dict', 'set', 'nd'):
                self.raise_exc(st, 'TypeError', 'unhashable type: %s' % r.kind, node)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                for c in self.mro(r.cls):
                    f = st.heap[c.oid].f
                    if '__hash__' in f:
                        return
                    if '__eq__' in f:
                        self.raise_exc(st, 'TypeError', 'unhashable type: %s' % r.cls.name, node)

    def key_in(self, st, m, k, node):
        self.hashable(st, k, node)
        if any(kk == k for kk, _ in m.items):
            return TRUE
        r = FALSE
        for kk, _ in m.items:
            e = self.eq(st, kk, k, True)
            r = OR(r, e)
        return r

    # ------------------------------------------------------------------ subscripts
    def ex_Slice(self, n, st, fr):
        return Slice(*[self.ev(x, st, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)])

    def ex_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        if isinstance(o, (Ext, ClassRef, Builtin)):
            return o if not isinstance(o, Ext) else Ext('typing.expr')
        i = self.ev(n.slice, st, fr)
        self.cur_node = n
        return self.getitem(st, o, i, n)

    def py_slice(self, l):
        vals = []
        for x in l.k:
            if x == NONE:
                vals.append(None)
            elif isinstance(x, Num) and x.const() is not None and x.const().denominator == 1:
                vals.append(int(x.const()))
            else:
                return None
        return slice(*vals)

    def expand_slice(self, idx):
        """gated slices with gated bounds -> gated Slice with leaf bounds"""
        if isinstance(idx, Slice) and any(isinstance(k, Ite) for k in idx.k):
            return apply(lambda a, b, c: Slice(a, b, c), *idx.k)
        return idx

    def getitem(self, st, o, i, node=None):
        i = apply(self.expand_slice, i)
        return self.split(st, o, lambda s, l: self.split(s, i, lambda s2, k: self.getitem_leaf(s2, l, k, node)))

    def getitem_leaf(self, st, l, k, node):
        if isinstance(l, Ref):
            r = self.rec(st, l)
            if r.kind in ('list', 'impath'):
                return self.split(st, r.f['_'], lambda s, t: self.seq_get(s, t.items, k, node, lambda xs: self.new_list(s, xs)))
            if r.kind == 'dict':
                if r.f.get('factory', NONE) != NONE:
                    def filled(s, m):
                        e = self.key_in(s, m, k, node)
                        if e == FALSE:
                            v = self.call(s, r.f['factory'], [], {}, node)
                            self.setitem(s, l, k, v, node)
                            return v
                        if e != TRUE:
                            raise Unsupported('symbolic key of a defaultdict')
                        return self.map_get(s, m, k, node)
                    return self.split(st, r.f['_'], filled)
                return self.split(st, r.f['_'], lambda s, m: self.map_get(s, m, k, node))
            if r.kind == 'nd':
                return self.nd_get(st, l, k, node)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                if self.cls_lookup(st, r.cls, '__getitem__'):
                    return self.call_method(st, l, '__getitem__', [k])
                self.raise_exc(st, 'TypeError', "'%s' object is not subscriptable" % r.cls.name, node)
        if isinstance(l, Tup):
            return self.seq_get(st, l.items, k, node, lambda xs: Tup(xs))
        if isinstance(l, Str):
            if l.lit is not None:
                return self.seq_get(st, [lit(c) for c in l.lit], k, node, lambda xs: Str(tuple(x.lit for x in xs)))
            if isinstance(k, Slice):
                sl = self.py_slice(k)
                if sl is not None and sl.step is None and sl.stop is None and sl.start is not None and sl.start >= 0 and \
                        isinstance(l.parts[0], str) and len(l.parts[0]) >= sl.start:
                    return Str((l.parts[0][sl.start:],) + l.parts[1:])
            return Str((('opq', ('strsub', l, k)),))
        if isinstance(l, (Opq, Ext)):
            return Opq('item', l, k)
        if isinstance(l, (ClassRef, Builtin)):
            return l
        self.raise_exc(st, 'TypeError', '%s is not subscriptable' % (self.class_of(st, l),), node)

    def seq_get(self, st, xs, k, node, mk):
        if isinstance(k, Slice):
            sl = self.py_slice(k)
            if sl is None:
                raise Unsupported('symbolic slice')
            return mk(tuple(xs)[sl])
        if isinstance(k, Const) and isinstance(k.v, bool):
            k = N.const(int(k.v))
        if isinstance(k, Num):
            c = k.const()
            if c is None:
                # symbolic index: select by comparison with every position
                res = None
                v = UNDEF
                for i, x in enumerate(xs):
                    v = dd.sign_ite(N.sub(k, N.const(i)), v, x, v)
                v = restrict(v, st.pc)
                bad = guard_of(v, UNDEF)
                self.guard_raise(st, bad, 'IndexError', 'index out of range', node)
                return restrict(v, st.pc)
            if c.denominator != 1:
                self.raise_exc(st, 'TypeError', 'indices must be integers', node)
            i = int(c)
            if -len(xs) <= i < len(xs):
                return xs[i]
            self.raise_exc(st, 'IndexError', 'index out of range', node)
        if isinstance(k, Opq):
            raise Unsupported('opaque index')
        self.raise_exc(st, 'TypeError', 'indices must be integers', node)

    def map_get(self, st, m, k, node, default=None):
        self.hashable(st, k, node)
        for kk, v in m.items:
            if kk == k:
                return v
        # keys of unknown equality
        out = UNDEF if default is None else default
        for kk, v in m.items:
            e = self.eq(st, kk, k, True)
            if e != FALSE:
                out = ite(e, v, out)
        if default is None:
            bad = guard_of(out, UNDEF)
            cond = restrict(bad, st.pc)
            if cond is None:
                raise DeadPath()
            if cond != FALSE:
                s = st.fork(cond)
                exc = self.make_exc(s, 'KeyError', (k,))
                self.fr.ctx.exc.append(Exit(s, exc, self.where(node)))
                st.pc = AND(st.pc, NOT(cond))
                if st.dead:
                    raise DeadPath()
            out = restrict(out, st.pc)
        return out

    def setitem(self, st, o, i, v, node=None):
        i = apply(self.expand_slice, i)

        def one(s, l, k):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind == 'dict':
                    self.write(s, l.oid, '_', self.split(s, r.f['_'], lambda s2, m: self.map_put(s2, m, k, v, node)))
                    return NONE
                if r.kind == 'list':
                    if isinstance(k, Slice):
                        sl = self.py_slice(k)
                        if sl is None:
                            raise Unsupported('symbolic slice assignment')
                        new = self.items(s, v)

                        def put(t):
                            xs = list(t.items)
                            xs[sl] = new
                            return Tup(xs)
                        self.write(s, l.oid, '_', apply(put, self.content(s, l)))
                        return NONE
                    if isinstance(k, Num) and k.const() is not None:
                        idx = int(k.const())
                        bad = apply(lambda t: FALSE if -len(t.items) <= idx < len(t.items) else TRUE, r.f['_'])
                        self.guard_raise(s, bad, 'IndexError', 'assignment index out of range', node)

                        def put(t):
                            xs = list(t.items)
                            xs[idx] = v
                            return Tup(xs)
                        self.write(s, l.oid, '_', apply(put, restrict(self.content(s, l), s.pc)))
                        return NONE
                    raise Unsupported('symbolic index assignment')
                if r.kind == 'nd':
                    self.nd_set(s, l, k, v, node)
                    return NONE
                if r.kind == 'inst' and isinstance(r.cls, ClassInfo) and self.cls_lookup(s, r.cls, '__setitem__'):
                    self.call_method(s, l, '__setitem__', [k, v])
                    return NONE
            if isinstance(l, Opq):
                self.event(s, 'setitem', [l, k, v])
                return NONE
            self.raise_exc(s, 'TypeError', 'item assignment not supported', node)
        self.split(st, o, lambda s, l: self.split(s, i, lambda s2, k: one(s2, l, k)))

    def map_put(self, st, m, k, v, node):
        self.hashable(st, k, node)
        xs = list(m.items)
        for j, (kk, old) in enumerate(xs):
            if kk == k:
                xs[j] = (kk, v)
                return Map(xs)
        unknown = [(j, self.eq(st, kk, k, True)) for j, (kk, _) in enumerate(xs)]
        unknown = [(j, e) for j, e in unknown if e != FALSE]
        out = Map(xs + [(k, v)])
        for j, e in unknown:
            ys = list(xs)
            ys[j] = (xs[j][0], v)
            out = ite(e, Map(ys), out)
        return out

    def delitem(self, st, o, i, node=None):
        def one(s, l, k):
            if isinstance(l, Ref):
                r = self.rec(s, l)
                if r.kind in ('dict',):
                    def rm(s2, m):
                        if not any(kk == k for kk, _ in m.items):
                            self.raise_exc(s2, 'KeyError', (k,), node)
                        return Map([(kk, v) for kk, v in m.items if kk != k])
                    self.write(s, l.oid, '_', self.split(s, r.f['_'], rm))
                    return NONE
                if r.kind == 'list':
                    def rm(t):
                        xs = list(t.items)
                        if isinstance(k, Slice):
                            del xs[self.py_slice(k)]
                        else:
                            del xs[int(k.const())]
                        return Tup(xs)
                    try:
                        self.write(s, l.oid, '_', apply(rm, r.f['_']))
                    except IndexError:
                        self.raise_exc(s, 'IndexError', 'index out of range', node)
                    except (AttributeError, TypeError):
                        raise Unsupported('symbolic del')
                    return NONE
            raise Unsupported('del item')
        self.split(st, o, lambda s, l: self.split(s, i, lambda s2, k: one(s2, l, k)))

    # ------------------------------------------------------------------ calls / comprehensions / strings
    def ex_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            if fr.cls is None:
                raise Unsupported('super outside class')
            obj = fr.self_leaf
            if obj is None:
                # nested function/comprehension inside a method
                raise Unsupported('super without self')
            return apply(lambda l: SuperRef(fr.cls, l), obj)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'eval', 'exec', 'globals'):
            raise Unsupported(n.func.id)
        f = self.ev(n.func, st, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items(st, self.ev(a.value, st, fr), a))
            else:
                args.append(self.ev(a, st, fr))
        kwargs = {}
        kws = [(k.arg, self.ev(k.value, st, fr)) for k in n.keywords]
        self.cur_node = n
        if all(k is not None for k, _ in kws):
            return self.call(st, f, args, dict(kws), n)

        def spread(s, rest, kw):
            if not rest:
                self.cur_node = n
                return self.call(s, f, args, kw, n)
            k, v = rest[0]
            if k is not None:
                return spread(s, rest[1:], dict(kw, **{k: v}))

            def one(s2, l):
                if not (isinstance(l, Ref) and self.rec(s2, l).kind == 'dict'):
                    raise Unsupported('** of a non-dict')

                def two(s3, m):
                    if not isinstance(m, Map):
                        raise Unsupported('** of a non-dict')
                    new = dict(kw)
                    for kk, vv in m.items:
                        if kk.lit in new:
                            self.raise_exc(s3, 'TypeError', 'multiple values for keyword argument %r' % kk.lit, n)
                        new[kk.lit] = vv
                    return spread(s3, rest[1:], new)
                return self.split(s2, self.content(s2, l), two)
            return self.split(s, v, one)
        return spread(st, kws, kwargs)

    def ex_Lambda(self, n, st, fr):
        return self.make_func(n, st, fr, '<lambda>')

    def comp_scope(self, n, st, fr):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.next_oid += 1
        oid = self.next_oid
        st.heap[oid] = Rec('frame', None, {})
        return (CompNames(names), oid)

    def run_comp(self, gens, st, fr, emit, first=None, i=0):
        if i == len(gens):
            emit(st)
            return
        g = gens[i]
        it = first if i == 0 and first is not None else self.ev(g.iter, st, fr)
        home = self.fr

        def body(s, x):
            if s.dead:
                return
            inner, self.fr = self.fr, home
            try:
                self.assign(g.target, x, s, fr)
                conds = list(g.ifs)

                def chk(s2, k):
                    if k == len(conds):
                        self.run_comp(gens, s2, fr, emit, None, i + 1)
                        return
                    c = self.truth(s2, self.ev(conds[k], s2, fr))
                    self.branch(s2, c, lambda s3: chk(s3, k + 1), lambda s3: None)
                chk(s, 0)
            except DeadPath:
                s.pc = FALSE
            finally:
                self.fr = inner
        self.iterate(st, it, body, g.iter)
        if st.dead:
            raise DeadPath()

    def comp(self, n, st, fr, kind):
        scope = self.comp_scope(n, st, fr)
        first = self.ev(n.generators[0].iter, st, fr)
        old = fr.scopes
        fr.scopes = (scope,) + old
        try:
            if kind == 'list':
                out = self.new_list(st, [])

                def emit(s):
                    v = self.ev(n.elt, s, fr)
                    self.write(s, out.oid, '_', apply(lambda t, x=v: Tup(t.items + (x,)), self.content(s, out)))
            elif kind == 'set':
                out = self.alloc(st, 'set', None, {'_': Map()})

                def emit(s):
                    METHODS[('set', 'add')](self, s, out, [self.ev(n.elt, s, fr)], {}, n)
            else:
                out = self.new_dict(st)

                def emit(s):
                    k = self.ev(n.key, s, fr)
                    self.setitem(s, out, k, self.ev(n.value, s, fr), n)
            self.run_comp(n.generators, st, fr, emit, first)
        finally:
            fr.scopes = old
        return out

    def ex_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def ex_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def ex_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def ex_GeneratorExp(self, n, st, fr):
        first = self.ev(n.generators[0].iter, st, fr)
        # evaluated when consumed, in the scope captured here
        return self.alloc(st, 'gen', None, {'f': Wrap('genexp', fr, n, first, fr.scopes), 'env': Map()})

    def run_genexp(self, st, fr, n, first, scopes, handler):
        scope = self.comp_scope(n, st, fr)
        gfr = Frame(fr.info, fr.module, fr.env, (scope,) + scopes, self.fr.ctx, fr.self_leaf, None, fr.cls)
        old = self.fr
        self.fr = gfr
        try:
            def emit(s):
                v = self.ev(n.elt, s, gfr)
                handler(s, v)
            self.run_comp(n.generators, st, gfr, emit, first)
        finally:
            self.fr = old

    def ex_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        self.do_yield(st, v, n, fr)
        return NONE

    def do_yield(self, st, v, n, fr):
        if fr.handler is None:
            raise Unsupported('yield outside of a driven generator')
        if self.on_yield:
            self.on_yield(st, v)
        fr.handler(st, v)
        if st.dead:
            raise DeadPath()
        if self.abort_mode:
            exc = self.alloc(st, 'inst', Builtin('GeneratorExit'), {'args': Tup(())})
            fr.ctx.exc.append(Exit(st, exc, self.where(n), may=True))

    def ex_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)

        def h(s, x):
            fr.handler(s, x)        # in the frame of the inner generator: exits of the consumer unwind from there
        if fr.handler is None:
            raise Unsupported('yield from outside of a driven generator')
        ls = leaves(v)
        gens = any(isinstance(l, Ref) and self.rec(st, l).kind == 'gen' for l in ls)

        def one(s, x):
            if gens:
                h(s, x)
            else:
                self.do_yield(s, x, n, fr)
        self.iterate(st, v, one, n)
        if st.dead:
            raise DeadPath()
        if isinstance(v, Ref) and v.oid in st.heap and st.heap[v.oid].kind == 'gen':
            return st.heap[v.oid].f.get('ret', NONE)
        return NONE

    def ex_JoinedStr(self, n, st, fr):
        parts = Str(())
        for v in n.values:
            if isinstance(v, ast.Constant):
                p = lit(v.value)
            else:
                x = self.ev(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ex_JoinedStr(v.format_spec, st, fr)
                    if not isinstance(sp, Str) or sp.lit is None:
                        raise Unsupported('dynamic format spec')
                    spec = sp.lit
                if v.conversion == 114:
                    p = self.to_repr(st, x)
                elif v.conversion == 115 or not spec:
                    p = self.to_str(st, x)
                else:
                    p = self.fmt_spec(st, x, spec)
            parts = apply(lambda a, b: Str(a.parts + b.parts), parts, p)
        return parts

    def ex_FormattedValue(self, n, st, fr):
        return self.to_str(st, self.ev(n.value, st, fr))

    def ex_Starred(self, n, st, fr):
        raise Unsupported('starred expression')

    def ex_Await(self, n, st, fr):
        raise Unsupported('await')

    def fmt_spec(self, st, x, spec):
        def one(s, l):
            if isinstance(l, Num):
                if spec in ('', 's', 'r', 'g') and False:
                    return Str((('num', '', l),))
                return Str((('num', spec, l),))
            if spec.strip('<>^0123456789s') == '':
                return self.to_str(s, l)
            return Str((('opq', ('fmt', spec, l)),))
        return self.split(st, x, one)

    def to_str(self, st, v):
        return self.split(st, v, lambda s, l: self.str_leaf(s, l, False))

    def to_repr(self, st, v):
        return self.split(st, v, lambda s, l: self.str_leaf(s, l, True))

    def str_leaf(self, st, l, rep):
        if isinstance(l, Num):
            c = l.const()
            if c is not None and c.denominator == 1 and abs(c) < 10 ** 15:
                return lit(str(int(c)))
            return Str((('num', '', l),))
        if isinstance(l, Const):
            return lit(repr(l.v) if rep else str(l.v))
        if isinstance(l, Str):
            if not rep:
                return l
            if l.lit is not None:
                return lit(repr(l.lit))
            return Str((('reprstr', l),))
        if isinstance(l, Tup):
            xs = [self.to_repr(st, x) for x in l.items]
            return self.str_cat(st, ['('] + self.interleave(xs, ', ') + ([',)'] if len(xs) == 1 else [')']))
        if isinstance(l, Ref):
            r = self.rec(st, l)
            if r.kind == 'list':
                return self.split(st, r.f['_'], lambda s, t: self.str_cat(
                    s, ['['] + self.interleave([self.to_repr(s, x) for x in t.items], ', ') + [']']))
            if r.kind == 'dict':
                def f(s, m):
                    xs = []
                    for k, v in m.items:
                        xs.append(self.str_cat(s, [self.to_repr(s, k), ': ', self.to_repr(s, v)]))
                    return self.str_cat(s, ['{'] + self.interleave(xs, ', ') + ['}'])
                return self.split(st, r.f['_'], f)
            if r.kind == 'inst' and isinstance(r.cls, ClassInfo):
                if not rep and self.cls_lookup(st, r.cls, '__str__'):
                    return self.call_method(st, l, '__str__', [])
                if self.cls_lookup(st, r.cls, '__repr__'):
                    return self.call_method(st, l, '__repr__', [])
                return Str((('opq', ('objrepr', l)),))
            if r.kind == 'inst':
                a = r.f.get('args')
                if isinstance(a, Tup) and len(a.items) == 1:
                    return self.to_str(st, a.items[0])
            return Str((('opq', ('objrepr', l)),))
        return Str((('opq', ('str', rep, l)),))

    def interleave(self, xs, sep):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.append(x)
        return out

    def str_cat(self, st, xs):
        out = Str(())
        for x in xs:
            if isinstance(x, str):
                x = lit(x)
            out = apply(lambda a, b: Str(a.parts + b.parts), out, x)
        return out

    def str_format(self, st, fmt, b, node):
        """printf-style formatting"""
        if fmt.lit is None:
            return Str((('opq', ('%', fmt, b)),))
        import re
        toks = re.split(r'(%(?:\([a-zA-Z_]\w*\))?[-+ #0]*(?:\d+|\*)?(?:\.\d+)?[sradfgeixXoc%])', fmt.lit)
        args = list(b.items) if isinstance(b, Tup) else [b]
        mapping = any(t.startswith('%(') for t in toks)
        out = []
        i = 0
        for t in toks:
            if not t:
                continue
            if t == '%%':
                out.append('%')
                continue
            if t.startswith('%') and len(t) > 1:
                if mapping:
                    key = t[2:t.index(')')]
                    v = self.getitem(st, b, lit(key), node)
                    t = '%' + t[t.index(')') + 1:]
                else:
                    if i >= len(args):
                        self.raise_exc(st, 'TypeError', 'not enough arguments for format string', node)
                    v = args[i]
                    i += 1
                conv = t[-1]
                if conv == 's':
                    out.append(self.to_str(st, v))
                elif conv in 'ra':
                    out.append(self.to_repr(st, v))
                else:
                    def one(s, l, t=t):
                        if isinstance(l, Const) and isinstance(l.v, bool):
                            l = N.const(int(l.v))
                        if isinstance(l, Num):
                            c = l.const()
                            if t == '%d' and c is not None:
                                return lit(str(int(c)))
                            if t == '%d' and N.is_int(l):
                                return Str((('num', '', l),))
                            return Str((('num', t, l),))
                        if isinstance(l, Opq):
                            return Str((('opq', (t, l)),))
                        self.raise_exc(s, 'TypeError', 'a number is required for %s' % t, node)
                    out.append(self.split(st, v, one))
            else:
                out.append(t)
        if not mapping and i < len(args) and isinstance(b, Tup):
            self.raise_exc(st, 'TypeError', 'not all arguments converted during string formatting', node)
        return self.str_cat(st, out)

    # ------------------------------------------------------------------ modules
    def pystd(self, st, name):
        """an entry of the standard library that is interpreted"""
        m = self.modules.get('sva.pystd')
        if m is None or m.oid not in st.heap:
            raise Unsupported('library program loaded on a forked path')
        return st.heap[m.oid].f[name]

    def find_module(self, name):
        if name == 'sva.pystd':
            return os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pystd.py')
        if not (name == 'x7' or name == 'x7.geom' or name.startswith('x7.geom.')):
            return None
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isdir(p):
            return p
        return None

    def import_module(self, st, name):
        if self.find_module(name):
            return ModRef(self.load_module(st, name).name)
        return Ext(name)

    def load_module(self, st, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find_module(name)
        if path is None:
            raise AnchorMissing('module %s' % name)
        rel = os.path.relpath(path, self.root)
        m = Module(name, path, rel)
        self.modules[name] = m
        ref = self.alloc(st, 'module', None, {'__name__': lit(name)})
        m.oid = ref.oid
        if os.path.isfile(path):
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            m.tree = ast.parse(src, path)
            m.src = src
            ctx = Ctx()
            fr = Frame(None, m, m.oid, (), ctx)
            old, on = self.fr, self.cur_node
            self.fr = fr
            try:
                self.exec_block(m.tree.body, st, fr)
            finally:
                self.fr, self.cur_node = old, on
            if st.dead:
                e = ctx.exc[-1] if ctx.exc else None
                raise Unsupported('module %s does not load: %s' % (name, describe_exc(self, e) if e else '?'))
        if '.' in name:
            parent = name.rpartition('.')[0]
            if parent in self.modules:
                self.write(st, self.modules[parent].oid, name.rpartition('.')[2], ModRef(name))
        return m


class CompNames(frozenset):
    pass


class ClassBody:
    """pseudo function info while a class body is interpreted"""
    def __init__(self, node, fr, ci, outer):
        self.node, self.ci, self.outer_scopes = node, ci, outer
        self.qualname = (fr.info.qualname + '.' if fr.info is not None else '') + node.name
        self.globals_ = ()


def describe_exc(I, e):
    v = leaves(e.val)[0]
    r = e.heap.get(v.oid) if isinstance(v, Ref) else None
    name = (r.cls.name if isinstance(r.cls, ClassInfo) else r.cls.k[0]) if r is not None else str(v)
    msg = ''
    if r is not None and isinstance(r.f.get('args'), Tup) and r.f['args'].items:
        msg = str(r.f['args'].items[0])
    return '%s(%s) at %s in %s' % (name, msg, e.where[0] if e.where else '?', e.where[1] if e.where else '?')


def order_num(op, x, y):
    d = N.sub(x, y)
    if isinstance(op, ast.Lt):
        return dd.sign_ite(d, TRUE, FALSE, FALSE)
    if isinstance(op, ast.LtE):
        return dd.sign_ite(d, TRUE, TRUE, FALSE)
    if isinstance(op, ast.Gt):
        return dd.sign_ite(d, FALSE, FALSE, TRUE)
    return dd.sign_ite(d, FALSE, TRUE, TRUE)


def callee_name(f):
    if isinstance(f, Ext):
        return f.k[0]
    if isinstance(f, Opq):
        if f.k[0] == 'attr':
            return callee_name(f.k[1]) + '.' + str(f.k[2])
        if f.k[0] == 'call':
            return callee_name(f.k[1]) + '()'
        return str(f.k[0]) + ':' + ','.join(str(x) for x in f.k[1:] if isinstance(x, str))
    return str(f)


def num_pow(a, b):
    c = b.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 8:
            if c < 0 and not a.n:
                raise ZeroDivisionError
            return N.powi(a, int(c))
        if c == N.F(1, 2):
            return N.sqrt(a)
    return N.generic('pow', (a, b))


NUMOPS = {ast.Add: N.add, ast.Sub: N.sub, ast.Mult: N.mul, ast.Div: N.div, ast.Mod: N.mod, ast.FloorDiv: N.floordiv, ast.Pow: num_pow}
BINNAMES = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Mod: 'mod', ast.FloorDiv: 'floordiv',
            ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
INPLACE = {k: '__i%s__' % v for k, v in BINNAMES.items()}
BUILTIN_CONSTS = {'NotImplemented': NOTIMPL, 'Ellipsis': dd.ELLIPSIS, '__debug__': TRUE}
OBJECT_METHODS = {'__eq__', '__ne__', '__repr__', '__str__', '__init__', '__hash__', '__setattr__', '__getattribute__', '__reduce__',
                  '__init_subclass__', '__new__', '__delattr__', '__format__', '__round__', '__getstate__', '__copy__x'}
NAME_SEPARATORS = ('.', '#', ' ', ',', '/')
EXT_BASE_OK = {'abc.ABC', 'typing.SupportsRound', 'typing.Generic', 'typing.expr', 'typing.NamedTuple', 'typing.Protocol'}
EXT_CONSTS = {}
PYSTD = dict([('itertools.' + n, n) for n in ('takewhile', 'dropwhile', 'filterfalse', 'compress', 'tee', 'groupby', 'batched')]
             + [('contextlib.' + n, n) for n in ('suppress', 'nullcontext', 'closing', 'ExitStack')]
             + [('bisect.insort', 'insort'), ('bisect.insort_right', 'insort'), ('bisect.insort_left', 'insort_left'),
                ('types.SimpleNamespace', 'SimpleNamespace'), ('typing.NamedTuple', 'named_tuple'), ('enum.Enum', 'Enum'),
                ('enum.IntEnum', 'Enum')])
PURE_EXT = ('PIL.ImageColor', 'typing.', 'warnings.', 'numpy.', 'scipy.', 'collections.', 'functools.', 'enum.', 'dataclasses.', 'abc.', 'logging.')
FRESH_EXT = ('Image.new', 'ImageDraw.ImageDraw', 'ImageDraw.Draw', '.convert', 'alpha_composite', '.copy')
CONCRETE_EXT = ('math.', 'statistics.', 're.', 'cmath.', 'operator.', 'os.path.', 'posixpath.')
BUILTINS = {}
METHODS = {}
EXT = {}


def CONCRETE(I, st, name, args, node):
    """the value of a pure library function of plain constants, or None"""
    import importlib
    got = []
    for a in args:
        if isinstance(a, Str) and a.lit is not None:
            got.append(a.lit)
        elif isinstance(a, Num) and a.const() is not None:
            c = a.const()
            got.append(int(c) if c.denominator == 1 else float(c))
        elif isinstance(a, Const):
            got.append(a.v)
        elif isinstance(a, Tup) and all(isinstance(x, Num) and x.const() is not None for x in a.items):
            got.append(tuple(int(x.const()) if x.const().denominator == 1 else float(x.const()) for x in a.items))
        else:
            return None
    mod, _, fn = name.rpartition('.')
    try:
        f = getattr(importlib.import_module(mod), fn)
    except (ImportError, AttributeError):
        return None
    try:
        r = f(*got)
    except (ValueError, TypeError, ZeroDivisionError, OverflowError) as e:
        I.raise_exc(st, type(e).__name__, str(e), node)
    if isinstance(r, (bool, int, float, str, type(None), tuple, list)):
        return PY_VALUE(I, st, r)
    return None


PY_VALUE = None
