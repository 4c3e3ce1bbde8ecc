"""Independent model of the collection types: plain Python lists, sets and dicts with the documented
limits. Generated programs import either this module or adtlib (the real library) under the same names."""


def cp(v):
    return v._copy() if hasattr(v, "_copy") else v


def store(slots, i, v):
    """Assigns by value into an existing slot."""
    if hasattr(slots[i], "_assign"):
        slots[i]._assign(v)
    else:
        slots[i] = v


class Record:
    def __init_subclass__(cls):
        f = []
        for c in reversed(cls.__mro__):
            f += list(c.__dict__.get("__annotations__", {}))
        cls._f = f

    def __class_getitem__(cls, a):
        return cls

    def __init__(self, *a, **k):
        d = dict(zip(self._f, a)) | k
        for n in self._f:
            object.__setattr__(self, n, cp(d[n]))

    def __setattr__(self, n, v):
        p = getattr(type(self), n, None)
        if isinstance(p, property):
            p.fset(self, v)
            return
        cur = self.__dict__[n]
        if hasattr(cur, "_assign"):
            cur._assign(v)
        else:
            self.__dict__[n] = v

    def _copy(self):
        return type(self)(*(getattr(self, n) for n in self._f))

    def _assign(self, o):
        for n in self._f:
            setattr(self, n, getattr(o, n))

    def _key(self):
        return tuple(key(getattr(self, n)) for n in self._f)

    def __eq__(self, o):
        return type(self) is type(o) and self._key() == o._key()

    __hash__ = None

    def __pos__(self):
        return self._copy()


def key(v):
    return v._key() if hasattr(v, "_key") else v


class Pair(Record):
    first: int
    second: int

    def __lt__(self, o):
        return self._key() < o._key()

    def __le__(self, o):
        return self._key() <= o._key()

    def __gt__(self, o):
        return self._key() > o._key()

    def __ge__(self, o):
        return self._key() >= o._key()

    @property
    def tuple(self):
        return self.first, self.second


class Box(Record):
    value: int


def idx(i, n, end=False):
    if i != int(i):
        raise ValueError("not an integer")
    if not (-n <= i < n + end):
        raise IndexError("out of range")
    return int(i) + (n if i < 0 else 0)


class Seq:
    """Common behaviour of the array-likes; self.v is the list of elements."""

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[idx(i, len(self.v))]

    def __setitem__(self, i, x):
        store(self.v, idx(i, len(self.v)), x)

    def __iter__(self):
        i = 0
        while i < len(self.v):
            yield self.v[i]
            i += 1

    def __contains__(self, x):
        return any(key(e) == key(x) for e in self.v)

    def __reversed__(self):
        return Rev(self)

    def __eq__(self, o):
        return isinstance(o, Seq) and [key(e) for e in self.v] == [key(e) for e in o.v]

    __hash__ = None

    def _key(self):
        return tuple(key(e) for e in self.v)

    def index(self, x, start=0, stop=None):
        r = range(len(self.v))[slice(int(start), None if stop is None else int(stop))]
        return next((i for i in r if key(self.v[i]) == key(x)), -1)

    def last_index(self, x):
        return next((i for i in reversed(range(len(self.v))) if key(self.v[i]) == key(x)), -1)

    def count(self, x):
        return sum(key(e) == key(x) for e in self.v)

    def _best(self, f, k):
        if not self.v:
            return -1
        k = k or (lambda e: e)
        return f(range(len(self.v)), key=lambda i: key(k(self.v[i])))

    def index_of_max(self, *, key=None):
        return self._best(max, key)

    def index_of_min(self, *, key=None):
        return self._best(min, key)

    def swap(self, i, j):
        for q in (i, j):
            if not 0 <= q < len(self.v):
                raise IndexError
            if q != int(q):
                raise ValueError
        a, b = cp(self.v[int(i)]), cp(self.v[int(j)])
        store(self.v, int(i), b)
        store(self.v, int(j), a)

    def sort(self, *, key=None, reverse=False):
        self.v.sort(key=key, reverse=bool(reverse))

    def reverse(self):
        self.v.reverse()


class Rev(Seq):
    def __init__(self, s):
        self.s = s

    @property
    def v(self):
        return RevList(self.s.v)


class RevList:
    def __init__(self, v):
        self.w = v

    def __len__(self):
        return len(self.w)

    def __getitem__(self, i):
        return self.w[len(self.w) - 1 - i]

    def __setitem__(self, i, x):
        self.w[len(self.w) - 1 - i] = x

    def __iter__(self):
        return iter(self.w[::-1])

    def sort(self, **k):
        x = self.w[::-1]
        x.sort(**k)
        self.w[:] = x[::-1]

    def reverse(self):
        self.w.reverse()


class _Gen:
    def __class_getitem__(cls, a):
        a = a if isinstance(a, tuple) else (a,)
        return type(cls.__name__, (cls,), {"args": a})


class VarArray(_Gen, Seq):
    args = None

    @classmethod
    def new(cls):
        o = cls()
        o.v = []
        return o

    @classmethod
    def capacity(cls):
        return cls.args[1]

    def is_full(self):
        return len(self.v) == self.args[1]

    def _room(self, n=1):
        if len(self.v) + n > self.args[1]:
            raise AssertionError("full")

    def append(self, x):
        self._room()
        self.v.append(cp(x))

    append_unchecked = append

    def extend(self, xs):
        self._room(len(xs))
        self.v.extend([cp(x) for x in xs.v])

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def pop(self, i=None):
        return self.v.pop(idx(-1 if i is None else i, len(self.v)))

    def __delitem__(self, i):
        self.pop(i)

    def insert(self, i, x):
        i = idx(i, len(self.v), True)
        self._room()
        self.v.insert(i, cp(x))

    def remove(self, x):
        i = self.index(x)
        if i >= 0:
            del self.v[i]
        return i >= 0

    def clear(self):
        self.v.clear()

    def set_add(self, x):
        if x in self or self.is_full():
            return False
        self.v.append(cp(x))
        return True

    def set_remove(self, x):
        return self.remove(x)


class Array(_Gen, Seq):
    args = None

    def __init__(self, *xs):
        self.v = [cp(x) for x in xs]

    def _copy(self):
        return type(self)(*self.v)

    def _assign(self, o):
        for i in range(len(self.v)):
            store(self.v, i, o.v[i])

    def __pos__(self):
        return self._copy()


class ArraySet(_Gen):
    @classmethod
    def new(cls):
        o = cls()
        o.d = []
        return o

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return any(key(e) == key(x) for e in self.d)

    def __iter__(self):
        return iter(self.d)

    def add(self, x):
        if x in self or len(self.d) >= self.args[1]:
            return False
        self.d.append(cp(x))
        return True

    def remove(self, x):
        n = len(self.d)
        self.d = [e for e in self.d if key(e) != key(x)]
        return len(self.d) < n

    def clear(self):
        self.d = []


class ArrayMap(_Gen):
    @classmethod
    def new(cls):
        o = cls()
        o.d = {}
        return o

    @classmethod
    def capacity(cls):
        return cls.args[2]

    def is_full(self):
        return len(self.d) == self.args[2]

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return key(k) in self.d

    def __getitem__(self, k):
        return self.d[key(k)][1]

    def __setitem__(self, k, x):
        if key(k) in self.d:
            store(self.d[key(k)], 1, x)
            return
        if self.is_full():
            raise AssertionError
        self.d[key(k)] = [cp(k), cp(x)]

    def __delitem__(self, k):
        del self.d[key(k)]

    def pop(self, k):
        return self.d.pop(key(k))[1]

    def clear(self):
        self.d.clear()

    def keys(self):
        return (e[0] for e in self.d.values())

    __iter__ = keys

    def values(self):
        return (e[1] for e in self.d.values())

    def items(self):
        return ((e[0], e[1]) for e in self.d.values())


class FrozenNumSet:
    @classmethod
    def of(cls, *xs):
        o = cls()
        o.s = list(xs)
        return o

    def __len__(self):
        return len(self.s)

    def __contains__(self, x):
        return x in self.s

    def __iter__(self):
        return iter(sorted(self.s))


class Maybe:
    def __init__(self, present, value):
        self.p, self.x = present, value

    @property
    def is_some(self):
        return self.p

    @property
    def is_nothing(self):
        return not self.p

    def get(self, error_message=""):
        if not self.p:
            raise AssertionError
        return self.x

    def get_unsafe(self):
        return self.x

    def map(self, f):
        return Maybe(True, f(self.x)) if self.p else Nothing

    def flat_map(self, f):
        return f(self.x) if self.p else Nothing

    def or_default(self, d):
        return cp(self.x if self.p else d)

    def or_else(self, f):
        return cp(self.x if self.p else f())


def Some(x):
    return Maybe(True, x)


Nothing = Maybe(False, None)


def debug_log(x):
    from sonolus.script.debug import debug_log as d
    return d(x)


def inp(i):
    from vin import INPUTS
    return INPUTS[int(i)]


def con(i):
    from vin import CONS
    return CONS[int(i)]


def require(c, m=None):
    if not c:
        raise AssertionError(m)


def error(m=None):
    raise RuntimeError(m)
