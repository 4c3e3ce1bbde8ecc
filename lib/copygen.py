"""Random programs about copies and aliases of records and arrays, over the library or the model."""
import random

HEAD = '''from {mod} import *


class P(Record):
    x: int
    y: int

    def __add__(self, o):
        return P(self.x + o.x, self.y + o.y)

    def __mul__(self, k):
        return P(self.x * k, self.y)

    def __isub__(self, o):
        self.x -= o.x
        self.y = o.y
        return self

    @property
    def both(self):
        return self.x * 10 + self.y

    @both.setter
    def both(self, v):
        self.x = v
        self.y = v - 1


class Q(Record):
    p: P
    a: Array[int, 3]
    k: int


class D(Record):
    l: Q
    r: Q
    n: int


class B[T](Record):
    v: T
    w: T


@level_memory
class M:
    n: int
    p: P
    q: Q
    ap: Array[P, 3]
    ai: Array[int, 4]


lm = level_memory(D)
la = level_memory(Array[Q, 2])
KP = P(3, 4)
KQ = Q(P(1, 2), Array(5, 6, 7), 8)
KA = Array(9, 8, 7, 6)
KAP = Array(P(1, 5), P(2, 6), P(3, 7))


def tap(v):
    debug_log(v)
    return v


def poke(p, d):
    p.x += d
    p.y = p.x - 1
    return p


def inner(q):
    r = q.p
    r.x += 7
    return r


def fresh(q):
    return Q(+q.p, +q.a, q.k + 1)


def wrap(p, k):
    return Q(p, Array(k, k + 1, k + 2), k)


def bump_all(a):
    for e in a:
        e.x += 1


def set_all(a, v):
    for i in range(len(a)):
        a[i] = v


def exchange(a, b):
    t = +a
    a @= b
    b @= t


def count_to(p, n):
    while p.x < n:
        p.x += 1
        p.y += p.x


'''
FIELDS = {"P": [("x", "n"), ("y", "n")], "Q": [("p", "P"), ("a", "A3"), ("k", "n")], "D": [("l", "Q"), ("r", "Q"), ("n", "n")],
          "BP": [("v", "P"), ("w", "P")], "BA": [("v", "A3"), ("w", "A3")]}
ELEMS = {"A3": ("n", 3), "A4": ("n", 4), "AP": ("P", 3), "AQ": ("Q", 2), "AA": ("A3", 2)}
NAMES = {"P": "P", "Q": "Q", "D": "D", "BP": "B[P]", "BA": "B[Array[int, 3]]", "A3": "Array[int, 3]", "A4": "Array[int, 4]", "AP": "Array[P, 3]", "AQ": "Array[Q, 2]", "AA": "Array[Array[int, 3], 2]"}
COMP = list(NAMES)


class G:
    def __init__(self, seed, size):
        self.r = random.Random(seed)
        self.lines = []
        self.ind = 1
        self.k = 0
        self.budget = int(self.r.choice([8, 14, 22, 35]) * size)
        self.vars = [("M.p", "P"), ("M.q", "Q"), ("M.ap", "AP"), ("M.ai", "A4"), ("lm", "D"), ("la", "AQ")]
        self.ro = [("KP", "P"), ("KQ", "Q"), ("KA", "A4"), ("KAP", "AP")]
        self.nums = []
        self.loopv = []
        self.features = set()
        self.nest = 0
        if self.r.random() < 0.3:
            self.vars = []
        if self.r.random() < 0.6:
            self.ro = []

    def f(self, n):
        self.features.add(n)

    def new(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    # -- expressions
    def slot(self, e):
        """A tuple's element, which cannot be assigned to."""
        return e[0] == "t" and e[1:-3].isdigit() and e[-3:] in ("[0]", "[1]")

    def ix(self, n):
        r = self.r
        x = r.random()
        if x < 0.4:
            return str(r.randrange(-n, n))
        if x < 0.9:
            return f"int({self.num(0)}) % {n}"
        return f"tap(int({self.num(0)}) % {n} - {r.choice([0, n])})"

    def walk(self, e, t, want=None, deep=0.6):
        """A path below e; of type `want` if possible."""
        r = self.r
        for _ in range(5):
            if t == want or t == "n" or want is None and r.random() > deep:
                break
            if t in FIELDS:
                fs = FIELDS[t]
                if want == "n" and r.random() < 0.4 and any(s == "n" for _, s in fs):
                    fs = [x for x in fs if x[1] == "n"]
                f, t = r.choice(fs)
                e = f"{e}.{f}"
            else:
                s, n = ELEMS[t]
                e = f"{e}[{self.ix(n)}]"
                t = s
        return e, t

    def path(self, want=None, readonly=False):
        """(expression, type) of an existing place."""
        src = self.vars + (self.ro if readonly else [])
        if not src:
            return None
        for _ in range(12):
            e, t = self.r.choice(src)
            e, t = self.walk(e, t, want)
            if want is None and t != "n" or t == want:
                return e, t
        return None

    def num(self, d=1):
        r = self.r
        x = r.random()
        if x < 0.15:
            return f"inp({r.randrange(10)})"
        if x < 0.3 and self.nums + self.loopv:
            return r.choice(self.nums + self.loopv)
        if x < 0.65:
            p = self.path("n", True) if d >= 0 else None
            if p:
                return p[0]
        if x < 0.75:
            return f"con({r.randrange(10)})"
        if d > 0 and x < 0.95:
            return r.choice([f"({self.num(d - 1)} {r.choice('+-')} {self.num(d - 1)})", f"{self.num(d - 1)} % 7", f"({self.num(d - 1)} * 2 % 50)", f"tap({self.num(d - 1)})"])
        return str(r.randint(-5, 9))

    def value(self, t, d=1):
        """An expression of type t: a fresh value or a reference; never needed to be a name."""
        r = self.r
        if t == "n":
            return self.num(1)
        if r.random() < 0.55:
            p = self.path(t, True)
            if p:
                x = r.random()
                self.f("ref")
                return p[0] if x < 0.7 else r.choice([f"+{p[0]}", f"copy({p[0]})", f"freeze(copy({p[0]}))"])
        return self.make(t, d)

    def make(self, t, d=1):
        r = self.r
        x = r.random()
        if d < 0 or x < 0.1:
            return r.choice([f"+{NAMES[t]}", f"zeros({NAMES[t]})"])
        if t == "P" and x < 0.5:
            p, q = self.path("P", True), self.path("P", True)
            if p and q:
                return r.choice([f"({p[0]} + {q[0]})", f"({p[0]} * {self.num(0)})"])
        if t == "P" and x < 0.6 and (q := self.path("Q")):
            return f"inner({q[0]})"
        if t == "P" and x < 0.65 and (q := self.path("P")):
            return f"poke({q[0]}, {self.num(0)})"
        if t == "Q" and x < 0.3 and (q := self.path("Q", True)):
            return f"fresh({q[0]})"
        if t == "Q" and x < 0.45:
            return f"wrap({self.value('P', d - 1)}, {self.num(0)})"
        if t in FIELDS:
            ctor = "B" if t[0] == "B" and r.random() < 0.5 else NAMES[t]
            args = [(n, self.value(s, d - 1)) for n, s in FIELDS[t]]
            if r.random() < 0.15:
                self.f("frozen")
                # a frozen record may still refer to mutable ones
                return f"copy({ctor}.frozen({', '.join(a for _, a in args)}))"
            if r.random() < 0.3:
                r.shuffle(args)
                return f"{ctor}({', '.join(f'{n}={a}' for n, a in args)})"
            return f"{ctor}({', '.join(a for _, a in args)})"
        s, n = ELEMS[t]
        ctor = NAMES[t] if s == "n" or r.random() < 0.6 else "Array"
        return f"{ctor}({', '.join(self.value(s, d - 1) for _ in range(n))})"

    # -- statements
    def block(self, n, pre=()):
        save = list(self.vars), list(self.ro), list(self.nums), list(self.loopv)
        self.ind += 1
        self.nest += 1
        k = len(self.lines)
        self.vars += [p for p in pre if p]
        for _ in range(n):
            self.stmt()
        if len(self.lines) == k:
            self.w("pass")
        self.nest -= 1
        self.ind -= 1
        self.vars, self.ro, self.nums, self.loopv = save

    def declare(self):
        r = self.r
        t = r.choice(["P", "P", "P", "Q", "Q", "D", "AP", "AP", "AQ", "A3", "AA", "A4", "BP", "BA"])
        v = self.new("v")
        x = r.random()
        if x < 0.3 and (p := self.path(r.choice([t, None, None]))):
            self.f("alias")
            self.w(f"{v} = {p[0]}")
            self.vars.append((v, p[1]))
        elif x < 0.37 and (p := self.path(None, True)):
            self.f("freeze")
            self.w(f"{v} = freeze(copy({p[0]}))")
            self.ro.append((v, p[1]))
        elif x < 0.42 and self.ro:
            e, s = r.choice(self.ro)
            e, s = self.walk(e, s)
            if s != "n":
                self.w(f"{v} = {e}")
                self.ro.append((v, s))
        elif x < 0.5 and (p := self.path(None, True)):
            self.w(f"{v} = {r.choice(['+', 'copy'])}({p[0]})")
            self.vars.append((v, p[1]))
        elif x < 0.56 and (p := self.path()) and (q := self.path()):
            u = self.new("v")
            self.f("tuple")
            if r.random() < 0.5:
                self.w(f"{v}, {u} = {p[0]}, {q[0]}")
                self.vars += [(v, p[1]), (u, q[1])]
            else:
                v = self.new("t")
                self.w(f"{v} = ({p[0]}, {q[0]})")
                self.vars += [(f"{v}[0]", p[1]), (f"{v}[1]", q[1])]
        else:
            e = self.make(t, 2)
            # a copy of a read-only value is writable, the read-only value itself is not; make() never returns one
            self.w(f"{v} = {e}")
            if any(k in e for k in ("KP", "KQ", "KA", "freeze(")) or any(n in e for n, _ in self.ro):
                # may refer to something read-only
                self.lines.pop()
                self.w(f"{v} = copy({e})")
            self.vars.append((v, t))

    def stmt(self):
        r = self.r
        if self.budget <= 0:
            return
        self.budget -= 1
        x = r.random()
        if x < 0.2 and len(self.vars) < 14:
            self.declare()
        elif x < 0.28:
            v = self.new("n")
            self.f("snapshot")
            self.w(f"{v} = {self.num(1)}")
            self.nums.append(v)
        elif x < 0.44:
            p = self.path("n")
            if p:
                self.w(f"{p[0]} {r.choice(['=', '=', '=', '+=', '-='])} {self.num(1)}")
        elif x < 0.56:
            p = self.path()
            if p and ("." in p[0] or "[" in p[0]) and not self.slot(p[0]):
                self.f("set-composite")
                self.w(f"{p[0]} = {self.value(p[1])}")
        elif x < 0.63:
            p = self.path()
            if p and not self.slot(p[0]):
                self.f("copy-from")
                self.w(f"{p[0]} @= {self.value(p[1])}")
        elif x < 0.68:
            p = self.path("P")
            if p and not self.slot(p[0]):
                self.f("in-place")
                self.w(f"{p[0]} {r.choice([f'+= {self.value(chr(80))}', f'*= {self.num(0)}', f'-= {self.value(chr(80))}'])}")
        elif x < 0.73:
            p = self.path()
            q = p and self.path(p[1])
            if q:
                self.f("swap")
                y = r.random()
                if y < 0.4:
                    self.w(f"swap({p[0]}, {q[0]})")
                elif y < 0.6:
                    self.w(f"exchange({p[0]}, {q[0]})")
                elif all(("." in z or "[" in z) and not self.slot(z) for z in (p[0], q[0])):
                    self.w(f"{p[0]}, {q[0]} = {q[0]}, {p[0]}")
        elif x < 0.77:
            a, b = self.path("n"), self.path("n")
            if a and b:
                self.f("exchange-numbers")
                self.w(r.choice([f"{a[0]}, {b[0]} = {b[0]}, {a[0]}", f"{a[0]} = {b[0]} = {self.num(1)}", f"{a[0]}, {b[0]} = {self.num(1)}, {a[0]}"]))
        elif x < 0.80:
            p = self.path("P")
            if p:
                self.f("call")
                self.w(r.choice([f"poke({p[0]}, {self.num(0)})", f"debug_log(poke({p[0]}, 2).y)", f"{p[0]}.both = {self.num(0)}", f"count_to({p[0]}, {r.randint(-3, 5)})", f"debug_log({p[0]}.both)"]))
        elif x < 0.83:
            p = self.path(r.choice(["AP", "AQ", "A3", "A4", "AA"]))
            if p:
                s, n = ELEMS[p[1]]
                y = r.random()
                self.f("array-walk")
                if y < 0.3:
                    self.w(f"{p[0]}.swap({r.randrange(n)}, int({self.num(0)}) % {n})")
                elif y < 0.5:
                    self.w(f"set_all({p[0]}, {self.value(s)})")
                elif p[1] == "AP" and y < 0.7:
                    self.w(f"bump_all({p[0]})")
                elif s != "n" and self.nest < 3:
                    e = self.new("e")
                    self.w(f"for {e} in {p[0]}:")
                    self.block(r.randint(1, 2), [(e, s)])
        elif x < 0.87 and self.nest < 3:
            self.w(f"if {self.num(0)} {r.choice(['<', '>', '==', '!='])} {self.num(0)}:")
            self.block(r.randint(1, 3))
            if r.random() < 0.4:
                self.w("else:")
                self.block(r.randint(1, 2))
        elif x < 0.91 and self.nest < 3:
            i = self.new("i")
            self.w(f"for {i} in range({r.choice([2, 3, f'int({self.num(0)}) % 4'])}):")
            self.loopv.append(i)
            self.block(r.randint(1, 3))
            self.loopv.pop()
        elif x < 0.94:
            p = self.path(None, True)
            if p:
                self.f("equality")
                y = r.random()
                q = self.path(p[1], True)
                if y < 0.15:
                    self.w(f"debug_log(({p[0]}, {self.num(0)}) {r.choice(['==', '!='])} ({self.value(p[1])}, {self.num(0)}))")
                    return
                if y < 0.3 and q:
                    self.w(f"debug_log({p[0]} {r.choice(['in', 'not in'])} ({self.value(p[1])}, {q[0]}))")
                    return
                self.w(f"debug_log({p[0]} {r.choice(['==', '!='])} {self.value(p[1])})")
        elif x < 0.96 and len(self.vars) < 14:
            c, t = self.new("c"), r.choice(["P", "Q", "A3"])
            self.f("container")
            self.w(f"{c} = VarArray[{NAMES[t]}, 3].new()")
            for _ in range(2):
                self.w(f"{c}.append({self.value(t)})")
            self.vars += [(f"{c}[0]", t), (f"{c}[1]", t)]
        else:
            p = self.path(None, True)
            if p:
                self.log(*p)

    def log(self, e, t):
        if t == "n":
            self.w(f"debug_log({e})")
        elif t in FIELDS:
            for f, s in FIELDS[t]:
                self.log(f"{e}.{f}", s)
        else:
            s, n = ELEMS[t]
            if n and self.r.random() < 0.3:
                i = self.new("i")
                self.w(f"for {i} in range({n}):")
                self.ind += 1
                self.log(f"{e}[{i}]", s)
                self.ind -= 1
            else:
                for i in range(n):
                    self.log(f"{e}[{i}]", s)

    def program(self):
        self.w("start()")
        for _ in range(self.r.choice([1, 2, 3, 4])):
            self.declare()
        while self.budget > 0:
            self.stmt()
        for v, t in self.vars + self.ro:
            self.log(v, t)
        for n in self.nums:
            self.w(f"debug_log({n})")
        self.w("debug_log(424242)")
        return "def main():\n" + "\n".join(self.lines) + "\n"


def gen(seed, size=1.0):
    g = G(seed, size)
    return g.program(), g.features


def source(body, model):
    return HEAD.format(mod="copymodel" if model else "copylib") + body
