"""Parts of the standard library as programs the interpreter can follow (interpreted, never run)."""


def map_(func, items):
    for x in items:
        yield func(x)


def filter_(pred, items):
    for x in items:
        if pred(x) if pred is not None else x:
            yield x


def takewhile(pred, items):
    for x in items:
        if not pred(x):
            return
        yield x


def dropwhile(pred, items):
    dropping = True
    for x in items:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def filterfalse(pred, items):
    for x in items:
        if not (pred(x) if pred is not None else x):
            yield x


def compress(items, selectors):
    for x, s in zip(items, selectors):
        if s:
            yield x


def tee(items, n=2):
    got = list(items)
    return tuple([iter(got) for _ in range(n)])


def groupby(items, key=None):
    groups = []
    for x in items:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    return iter([(k, iter(g)) for k, g in groups])


def batched(items, n):
    got = list(items)
    return iter([tuple(got[i:i + n]) for i in range(0, len(got), n)])


def iter_until(func, sentinel):
    while True:
        x = func()
        if x == sentinel:
            return
        yield x


def insort(items, x, lo=0, hi=None):
    i = 0
    while i < len(items) and items[i] <= x:
        i += 1
    items.insert(i, x)


def insort_left(items, x, lo=0, hi=None):
    i = 0
    while i < len(items) and items[i] < x:
        i += 1
    items.insert(i, x)


class suppress:
    def __init__(self, *classes):
        self.classes = classes

    def __enter__(self):
        return None

    def __exit__(self, cls, exc, tb):
        return cls is not None and isinstance(exc, self.classes)


class nullcontext:
    def __init__(self, result=None):
        self.result = result

    def __enter__(self):
        return self.result

    def __exit__(self, cls, exc, tb):
        return None


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, cls, exc, tb):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self._todo = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        v = cm.__enter__()
        self._todo.append(cm.__exit__)
        return v

    def push(self, f):
        self._todo.append(f.__exit__ if hasattr(f, '__exit__') else f)
        return f

    def callback(self, f, *args, **kwargs):
        def run(cls, exc, tb):
            f(*args, **kwargs)
        self._todo.append(run)
        return f

    def pop_all(self):
        new = ExitStack()
        new._todo = self._todo
        self._todo = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, cls, exc, tb):
        swallowed = False
        while self._todo:
            f = self._todo.pop()
            if f(cls, exc, tb):
                cls = exc = tb = None
                swallowed = True
        return swallowed


class SimpleNamespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return isinstance(other, SimpleNamespace) and self.__dict__ == other.__dict__


class named_tuple:
    """what a NamedTuple inherits; its fields are _fields"""
    def __iter__(self):
        return iter([getattr(self, n) for n in self._fields])

    def __len__(self):
        return len(self._fields)

    def __getitem__(self, i):
        return tuple([getattr(self, n) for n in self._fields])[i]

    def __eq__(self, other):
        return (isinstance(other, (tuple, named_tuple))) and tuple(self) == tuple(other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(tuple(self))

    def __lt__(self, other):
        return tuple(self) < tuple(other)

    def __le__(self, other):
        return tuple(self) <= tuple(other)

    def __gt__(self, other):
        return tuple(self) > tuple(other)

    def __ge__(self, other):
        return tuple(self) >= tuple(other)

    def __add__(self, other):
        return tuple(self) + tuple(other)

    def __contains__(self, x):
        return x in tuple(self)

    def __repr__(self):
        return type(self).__name__ + '(' + ', '.join(['%s=%r' % (n, getattr(self, n)) for n in self._fields]) + ')'

    def __setattr__(self, name, value):
        raise AttributeError("can't set attribute")

    def _replace(self, **kw):
        return type(self)(**{n: kw.get(n, getattr(self, n)) for n in self._fields})

    def _asdict(self):
        return {n: getattr(self, n) for n in self._fields}

    def count(self, x):
        return tuple(self).count(x)

    def index(self, x):
        return tuple(self).index(x)


def repr_of(obj, names):
    return type(obj).__name__ + '(' + ', '.join(['%s=%r' % (n, getattr(obj, n)) for n in names]) + ')'


def eq_of(a, b, names):
    if type(a) is not type(b):
        return NotImplemented
    for n in names:
        if not getattr(a, n) == getattr(b, n):
            return False
    return True


class Enum:
    def __init__(self, value):
        self.value = self._value_ = value

    def __repr__(self):
        return '<%s.%s: %r>' % (type(self).__name__, self.name, self.value)

    def __str__(self):
        return '%s.%s' % (type(self).__name__, self.name)

    def __hash__(self):
        return hash(self.name)


class Missing:
    pass


MISSING = Missing()
