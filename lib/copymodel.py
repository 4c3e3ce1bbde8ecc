"""Independent model of the copy and alias rules: composites are Python objects, assignment into a place copies.

Generated programs import either this module or copylib (the real library) under the same names."""
import copy as _copy
from typing import Literal  # noqa: F401

from adtmodel import con, debug_log, inp  # noqa: F401

GLOBALS = []


class Ambiguous(Exception):
    """A copy between overlapping values: the order of the element copies would matter."""


class Meta(type):
    def __pos__(cls):
        return cls._zero()


def iscomp(v):
    return isinstance(v, Comp)


class Comp(metaclass=Meta):
    __hash__ = None

    def _copy_from(self, o):
        want = o._leaves()
        self._fill(o)
        if self._leaves() != want:
            raise Ambiguous

    def __imatmul__(self, o):
        self._copy_from(o)
        return self

    def __pos__(self):
        return self._dup()

    def __eq__(self, o):
        return type(self) is type(o) and self._leaves() == o._leaves()

    def __ne__(self, o):
        return not self == o


def dup(v):
    return v._dup() if iscomp(v) else v


class Record(Comp):
    _names = ()

    def __init_subclass__(cls):
        cls._names = tuple(cls.__dict__.get("__annotations__", {})) or cls._names
        cls.__match_args__ = cls._names

    def __class_getitem__(cls, a):
        a = a if isinstance(a, tuple) else (a,)
        ps = {p.__name__: t for p, t in zip(cls.__type_params__, a)}
        k = ("gen", cls, str(a))
        if k not in _types:
            _types[k] = type(cls.__name__, (cls,), {"_ps": ps, "_names": cls._names, "_anns": cls._types_()})
        return _types[k]

    @classmethod
    def _types_(cls):
        for c in cls.__mro__:
            if c.__dict__.get("__annotations__"):
                return c.__annotations__

    @classmethod
    def _zero(cls):
        ps = getattr(cls, "_ps", {})
        return cls(*(zeros(ps.get(getattr(t, "__name__", None), t)) for t in cls._types_().values()))

    def __init__(self, *a, **k):
        d = dict(zip(self._names, a)) | k
        self.__dict__.update({n: d[n] for n in self._names})  # composites stay references

    @classmethod
    def frozen(cls, *a, **k):
        return cls(*a, **k)

    def __setattr__(self, n, v):
        if iscomp(self.__dict__.get(n)):
            self.__dict__[n]._copy_from(v) if v is not self.__dict__[n] else None
        else:
            p = getattr(type(self), n, None)
            if isinstance(p, property):
                p.fset(self, v)
            else:
                self.__dict__[n] = v

    def _fill(self, o):
        for n in self._names:
            v = o.__dict__[n]
            if iscomp(v):
                self.__dict__[n]._fill(v)
            else:
                self.__dict__[n] = v

    def _leaves(self):
        r = []
        for n in self._names:
            v = self.__dict__[n]
            r += v._leaves() if iscomp(v) else [float(v)]
        return r

    def _dup(self):
        return type(self)(*(dup(self.__dict__[n]) for n in self._names))

    def __eq__(self, o):
        return isinstance(o, Record) and self._names == o._names and self._leaves() == o._leaves()


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "and", "or", "xor"):
    def _inplace(self, o, _op=_op):
        f = getattr(type(self), f"__{_op}__", None)
        if f is None:
            return NotImplemented
        self._copy_from(f(self, o))
        return self
    setattr(Record, f"__i{_op}__", _inplace)

_types = {}


class Array(Comp):
    _t = _n = None

    def __class_getitem__(cls, a):
        t, n = a
        n = n if isinstance(n, int) else n.__args__[0]
        k = (t, n)
        if k not in _types:
            _types[k] = Meta(cls.__name__, (cls,), {"_t": t, "_n": n})
        return _types[k]

    @classmethod
    def _zero(cls):
        return cls(*(zeros(cls._t) for _ in range(cls._n)))

    def __init__(self, *xs):
        self.v = [dup(x) for x in xs]

    def _dup(self):
        return type(self)(*self.v)

    def _fill(self, o):
        for i in range(len(self.v)):
            if iscomp(self.v[i]):
                self.v[i]._fill(o.v[i])
            else:
                self.v[i] = o.v[i]

    def _leaves(self):
        return [y for x in self.v for y in (x._leaves() if iscomp(x) else [float(x)])]

    def _i(self, i):
        n = len(self.v)
        if i != int(i) or not -n <= i < n:
            raise IndexError
        return int(i)

    def __getitem__(self, i):
        return self.v[self._i(i)]

    def __setitem__(self, i, x):
        i = self._i(i)
        if iscomp(self.v[i]):
            if self.v[i] is not x:
                self.v[i]._copy_from(x)
        else:
            self.v[i] = x

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        for i in range(len(self.v)):
            yield self.v[i]

    def __eq__(self, o):
        return isinstance(o, Comp) and self._leaves() == o._leaves()

    def swap(self, i, j):
        a, b = dup(self[i]), dup(self[j])
        self[i], self[j] = b, a


class VarArray(Array):
    def __class_getitem__(cls, a):
        return Meta("VarArray", (VarArray,), {"_t": a[0], "_n": a[1]})

    @classmethod
    def new(cls):
        o = object.__new__(cls)
        o.v = []
        return o

    def append(self, x):
        self.v.append(dup(x))


def zeros(t):
    return 0 if t in (int, float, bool) else t._zero()


def copy(v):
    return dup(v)


def freeze(v):
    return dup(v)


def swap(a, b):
    t = dup(a)
    a._copy_from(b)
    b._copy_from(t)


class Memory:
    def __init__(self, types):
        self.__dict__["types"] = types
        self._reset()

    def _reset(self):
        self.__dict__.update({n: zeros(t) for n, t in self.types.items()})

    def __setattr__(self, n, v):
        Record.__setattr__(self, n, v)


def level_memory(cls):
    if isinstance(cls, type) and issubclass(cls, Comp):
        v = zeros(cls)
        GLOBALS.append(v)
        return v
    m = Memory(cls.__annotations__)
    GLOBALS.append(m)
    return m


def start():
    for g in GLOBALS:
        g._reset() if isinstance(g, Memory) else g._fill(type(g)._zero())
