"""Recorded streams as plain sorted maps: what reading them has to give."""
import bisect
import math

MODE = "play"
STORES = {}  # name -> Store, kept from the play run for the watch run
CLOCK = [0.0, 0.0]


def interpolate(keys, vals, key):
    """The engine's reading of one backing stream."""
    if not keys:
        return 0.0
    i = bisect.bisect_left(keys, key)
    if i < len(keys) and keys[i] == key:
        return vals[i]
    if i == 0:
        return vals[0]
    if i == len(keys):
        return vals[-1]
    a, b = keys[i - 1], keys[i]
    return vals[i - 1] + (vals[i] - vals[i - 1]) * ((key - a) / (b - a))


class Line:
    """One sorted sequence of keys and numbers."""

    def __init__(self):
        self.keys, self.vals = [], []

    def set(self, key, value):
        i = bisect.bisect_left(self.keys, key)
        if i < len(self.keys) and self.keys[i] == key:
            self.vals[i] = value
        else:
            self.keys.insert(i, key)
            self.vals.insert(i, value)

    def has(self, key):
        i = bisect.bisect_left(self.keys, key)
        return i < len(self.keys) and self.keys[i] == key

    def next(self, key):
        i = bisect.bisect_right(self.keys, key)
        return self.keys[i] if i < len(self.keys) else key

    def prev(self, key):
        i = bisect.bisect_left(self.keys, key)
        return self.keys[i - 1] if i > 0 else key

    def get(self, key):
        return interpolate(self.keys, self.vals, key)


def num(x):
    return float(getattr(x, "data", x))


# types: "n" | ("rec", cls, [(field, type)]) | ("arr", build, type, n)
def size(t):
    if t == "n":
        return 1
    return sum(size(f) for _, f in t[2]) if t[0] == "rec" else size(t[2]) * t[3]


def flatten(t, v):
    if t == "n":
        return [num(v)]
    if t[0] == "rec":
        return [x for n, f in t[2] for x in flatten(f, getattr(v, n))]
    return [x for i in range(t[3]) for x in flatten(t[2], v[i])]


def build(t, flat):
    if t == "n":
        return flat[0]
    if t[0] == "rec":
        i, out = 0, []
        for _, f in t[2]:
            k = size(f)
            out.append(build(f, flat[i:i + k]))
            i += k
        return t[1](*out)
    k = size(t[2])
    return t[1](*(build(t[2], flat[i * k:i * k + k]) for i in range(t[3])))


class Place:
    """What stands for a value in play: only to be written to."""

    def __init__(self, store, key, t, at):
        self.__dict__.update(_s=store, _k=key, _t=t, _at=at)

    def _write(self, t, at, v):
        for i, x in enumerate(flatten(t, v)):
            self._s.put(at + i, self._k, x)

    def _field(self, name):
        at = self._at
        for n, f in self._t[2]:
            if n == name:
                return f, at
            at += size(f)
        raise AttributeError(name)

    def __getattr__(self, name):
        return Place(self._s, self._k, *self._field(name))

    def __setattr__(self, name, v):
        f, at = self._field(name)
        self._write(f, at, v)

    def _item(self, i):
        i = int(num(i))
        if not -self._t[3] <= i < self._t[3]:
            raise IndexError
        return self._t[2], self._at + i % self._t[3] * size(self._t[2])

    def __getitem__(self, i):
        return Place(self._s, self._k, *self._item(i))

    def __setitem__(self, i, v):
        f, at = self._item(i)
        if not isinstance(v, Place):
            self._write(f, at, v)

    def __imatmul__(self, v):
        self._write(self._t, self._at, v)
        return self


class Store:
    def __init__(self, t):
        self.lines = [Line() for _ in range(max(1, size(t)))]

    def put(self, i, key, x):
        self.lines[i].set(key, x)


class Data(list):
    def put(self, i, key, x):
        self[i] = x


class Some:
    is_some, is_nothing = True, False

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def or_default(self, d):
        return self.v


class Nothing:
    is_some, is_nothing = False, True

    def or_default(self, d):
        return d


class Iter:
    def __init__(self, it):
        self.it = iter(list(it))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def next(self):
        for v in self.it:
            return Some(v)
        return Nothing()


class Stream:
    def __init__(self, t, name):
        self.t, self.name = t, name

    @property
    def store(self):
        if self.name not in STORES:
            STORES[self.name] = Store(self.t)
        return STORES[self.name]

    @property
    def keys(self):
        return self.store.lines[0]

    def __setitem__(self, key, v):
        key = num(key)
        if isinstance(v, Place):
            return
        flat = flatten(self.t, v) or [0.0]
        for line, x in zip(self.store.lines, flat):
            line.set(key, x)

    def __getitem__(self, key):
        key = num(key)
        if MODE == "play":
            return Place(self.store, key, self.t, 0)
        return build(self.t, [x.get(key) for x in self.store.lines[:size(self.t)]])

    def __contains__(self, key):
        return self.keys.has(num(key))

    def next_key(self, k):
        return self.keys.next(num(k))

    def previous_key(self, k):
        return self.keys.prev(num(k))

    def has_next_key(self, k):
        return any(x > num(k) for x in self.keys.keys)

    def has_previous_key(self, k):
        return any(x < num(k) for x in self.keys.keys)

    def next_key_or_default(self, k, d):
        return min((x for x in self.keys.keys if x > num(k)), default=num(d))

    def previous_key_or_default(self, k, d):
        return max((x for x in self.keys.keys if x < num(k)), default=num(d))

    def next_key_inclusive(self, k):
        return min((x for x in self.keys.keys if x >= num(k)), default=num(k))

    def previous_key_inclusive(self, k):
        return max((x for x in self.keys.keys if x <= num(k)), default=num(k))

    def get_next(self, k):
        return self[self.next_key(k)]

    def get_previous(self, k):
        return self[self.previous_key(k)]

    def get_next_inclusive(self, k):
        return self[self.next_key_inclusive(k)]

    def get_previous_inclusive(self, k):
        return self[self.previous_key_inclusive(k)]

    def _from(self, k):
        return [x for x in self.keys.keys if x >= num(k)]

    def _desc(self, k):
        return [x for x in reversed(self.keys.keys) if x <= num(k)]

    def _since(self):
        return [x for x in self.keys.keys if prev_time() < x <= time()]

    def iter_keys_from(self, k):
        return Iter(self._from(k))

    def iter_values_from(self, k):
        return Iter(self[x] for x in self._from(k))

    def iter_items_from(self, k):
        return Iter((x, self[x]) for x in self._from(k))

    def iter_keys_from_desc(self, k):
        return Iter(self._desc(k))

    def iter_values_from_desc(self, k):
        return Iter(self[x] for x in self._desc(k))

    def iter_items_from_desc(self, k):
        return Iter((x, self[x]) for x in self._desc(k))

    def iter_keys_since_previous_frame(self):
        return Iter(self._since())

    def iter_values_since_previous_frame(self):
        return Iter(self[x] for x in self._since())

    def iter_items_since_previous_frame(self):
        return Iter((x, self[x]) for x in self._since())


class Group:
    def __init__(self, t, name, n):
        self.t, self.name, self.n = t, name, n

    def size(self):
        return self.n

    def __contains__(self, i):
        return 0 <= num(i) < self.n

    def __getitem__(self, i):
        i = num(i)
        if not 0 <= i < self.n:
            raise IndexError(i)
        return Stream(self.t, f"{self.name}[{int(i)}]")


class Streams:
    """fields: name -> (kind, type, n)"""

    def __init__(self, fields):
        self.__dict__["_f"] = fields

    def __getattr__(self, name):
        kind, t, n = self._f[name]
        if kind == "stream":
            return Stream(t, name)
        if kind == "group":
            return Group(t, name, n)
        flat = STORES.setdefault(name, Data([0.0] * size(t)))
        return Place(flat, 0, t, 0) if MODE == "play" else build(t, flat)

    def __setattr__(self, name, v):
        kind, t, _ = self._f[name]
        assert kind == "data"
        STORES[name] = Data(flatten(t, v))


def time():
    return CLOCK[0]


def prev_time():
    return CLOCK[0] - CLOCK[1]


def delta_time():
    return CLOCK[1]


def reset(mode):
    global MODE
    MODE = mode
    if mode == "play":
        STORES.clear()
    math  # the clock is set by the check
