"""Abstract leaves and the abstract heap."""
from .dd import Leaf, Const, TRUE, FALSE, NONE, NOTIMPL, UNDEF, Ite, nid
from .num import Num


class Tup(Leaf):
    __slots__ = ('items', 'h')

    def __init__(self, items):
        self.items = tuple(items)
        self.h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Tup) and len(self.items) == len(o.items) and
                             all(a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b)
                                 for a, b in zip(self.items, o.items)))

    def __hash__(self):
        if self.h is None:
            self.h = hash(('Tup',) + tuple(i.h if isinstance(i, Ite) else hash(i) for i in self.items))
        return self.h

    def __repr__(self):
        return '(%s)' % ', '.join(map(str, self.items))


class Map(Leaf):
    """Immutable ordered mapping leaf-key -> gated value"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __eq__(self, o):
        return self is o or (isinstance(o, Map) and len(self.items) == len(o.items) and
                             all(k == k2 and (a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b))
                                 for (k, a), (k2, b) in zip(self.items, o.items)))

    def __hash__(self):
        return hash(('Map',) + tuple(k for k, v in self.items))

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % kv for kv in self.items)


class Nd(Leaf):
    """ndarray contents"""
    __slots__ = ('shape', 'items')

    def __init__(self, shape, items):
        self.shape, self.items = tuple(shape), tuple(items)

    def __eq__(self, o):
        return self is o or (isinstance(o, Nd) and self.shape == o.shape and
                             all(a is b or (not isinstance(a, Ite) and not isinstance(b, Ite) and a == b)
                                 for a, b in zip(self.items, o.items)))

    def __hash__(self):
        return hash(('Nd', self.shape) + tuple(i.h if isinstance(i, Ite) else hash(i) for i in self.items))

    def __repr__(self):
        return 'nd%s%s' % (self.shape, list(map(str, self.items)))


class Ref(Leaf):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return self is o or (isinstance(o, Ref) and self.oid == o.oid)

    def __hash__(self):
        return hash(('Ref', self.oid))

    def __repr__(self):
        return '@%s' % self.oid


class Str(Leaf):
    """String term: literal pieces and symbolic pieces"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @property
    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __eq__(self, o):
        return self is o or (isinstance(o, Str) and self.parts == o.parts)

    def __hash__(self):
        return hash(('Str', self.parts))

    def __repr__(self):
        return repr(''.join(p if isinstance(p, str) else '<%s>' % (p[-1],) for p in self.parts))


def lit(s):
    return Str((s,))


class Identity(Leaf):
    __slots__ = ()

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Func(Identity):
    __slots__ = ('info', 'scopes', 'defaults', 'kwdefaults', 'wraps', 'attrs')

    def __init__(self, info, scopes, defaults, kwdefaults):
        self.info, self.scopes, self.defaults, self.kwdefaults = info, scopes, defaults, kwdefaults

    def __repr__(self):
        return '<function %s>' % self.info.qualname


class Keyed(Leaf):
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.k == o.k)

    def __hash__(self):
        return hash((type(self).__name__, self.k))

    def __repr__(self):
        return '%s%s' % (type(self).__name__, self.k)


class Bound(Keyed):        # (func leaf, self leaf)
    __slots__ = ()


class BMeth(Keyed):        # builtin method: (name, receiver leaf)
    __slots__ = ()


class Builtin(Keyed):      # (name,)
    __slots__ = ()


class Ext(Keyed):          # external dotted name
    __slots__ = ()


class ModRef(Keyed):
    __slots__ = ()


class Opq(Keyed):          # opaque external value, keyed by how it was obtained
    __slots__ = ()


class SuperRef(Keyed):     # (class info, self leaf)
    __slots__ = ()


class Partial(Keyed):      # (callable, args, kwargs items)
    __slots__ = ()


class Slice(Keyed):        # (start, stop, step) leaves
    __slots__ = ()


class Wrap(Keyed):         # class attribute wrappers: ('static'|'class'|'prop'|'cached'|'cm', payload...)
    __slots__ = ()


class Event(Keyed):        # (name, args)
    __slots__ = ()


class ClassRef(Leaf):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return self is o or (isinstance(o, ClassRef) and self.ci is o.ci)

    def __hash__(self):
        return hash(('C', id(self.ci)))

    def __repr__(self):
        return '<class %s>' % self.ci.name


class ClassInfo:
    def __init__(self, name, bases, module, node, oid):
        self.name, self.bases, self.module, self.node, self.oid = name, bases, module, node, oid
        self.mro = None
        self.ref = ClassRef(self)
        self.slots_only = False

    def __repr__(self):
        return self.name


class Rec:
    """Heap record; never mutated in place"""
    __slots__ = ('kind', 'cls', 'f')

    def __init__(self, kind, cls, f):
        self.kind, self.cls, self.f = kind, cls, f

    def put(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Rec(self.kind, self.cls, f)

    def drop(self, k):
        f = dict(self.f)
        f.pop(k, None)
        return Rec(self.kind, self.cls, f)
