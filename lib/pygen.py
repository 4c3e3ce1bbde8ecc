"""Random programs in the supported Python subset. The same source runs in CPython and compiled."""
import random

HEAD = '''from sonolus.script.debug import assert_false, assert_true, debug_log, error, notify, require, terminate
from sonolus.script.num import Num
from sonolus.script.record import Record
from sonolus.script.array import Array
from vin import inp, con
import math


class P(Record):
    x: int
    y: int

    def total(self):
        return self.x * 2 + self.y

    def bump(self, d):
        self.x += d
        return self.x

    @property
    def diff(self):
        return self.x - self.y

    @diff.setter
    def diff(self, v):
        self.x = self.y + v

    @staticmethod
    def mix(a, b):
        return a * 3 - b

    @classmethod
    def of(cls, a):
        return cls(a, a + 1)

    def __add__(self, other):
        debug_log(700)
        return P((self.x + other.x) % 509, (self.y + other.y) % 503)

    def __radd__(self, other):
        debug_log(701)
        return P(other, self.y)

    def __contains__(self, v):
        return v == self.x or v == self.y

    def __bool__(self):
        debug_log(702)
        return self.x > 0

    def __call__(self, k):
        return self.x + k


class Q(Record):
    p: P
    a: Array[int, 3]
    k: int


def tap(v):
    debug_log(v)
    return v


def first(a, *rest):
    s = a
    for r in rest:
        s = s * 2 + r
    return s % 101


def kw(a, b=7, *, c=3, d):
    return (a + 2 * b + 3 * c + 5 * d) % 103


def posonly(a, b=2, /, c=4):
    return a - b + 2 * c


def kws(a, **k):
    s = a
    for q in k.values():
        s = s * 3 + q
    return s % 101


'''


class G:
    def __init__(self, seed, size=1.0, hostile=0.0):
        self.r = random.Random(seed)
        self.hostile = hostile  # how often a statement is a check that may fail
        self.lines = []
        self.ind = 0
        self.budget = int(self.r.choice([10, 18, 30, 45]) * size)
        self.k = 0
        self.helpers = []      # (name, params, kind)
        self.features = set()
        self.nin = 10
        self.depth = 0
        self.reset()

    def reset(self):
        self.nums = []      # assignable numeric variables
        self.ro = []        # readable only (loop targets, parameters, captures)
        self.tups = []      # (name, length)
        self.recs = []      # P
        self.qs = []        # Q
        self.arrs = []      # (name, size)
        self.dicts = []     # (name, keys)
        self.lams = []      # (name, arity)
        self.loops = 0      # depth of enclosing loops that can be left
        self.nest = 0
        self.mult = 1
        self.infn = None    # "num" inside a function that returns numbers
        self.gen = False
        self.outer = set()

    def f(self, name):
        self.features.add(name)

    def new(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    # -- expressions -----------------------------------------------------------
    def lit(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return str(r.randint(-5, 9))
        if x < 0.8:
            return r.choice(["0.5", "1.5", "-2.5", "3.0", "0.25"])
        if x < 0.9:
            return r.choice(["True", "False"])
        return str(r.choice([0, 1, 2, 10, 100]))

    def atom(self):
        r = self.r
        x = r.random()
        v = self.nums + self.ro
        if x < 0.42 and v:
            return r.choice(v)
        if x < 0.55:
            return f"inp({r.randrange(self.nin)})"
        if x < 0.62:
            return f"con({r.randrange(self.nin)})"
        if x < 0.68 and self.tups:
            n, k = r.choice(self.tups)
            return f"{n}[{r.randrange(-k, k)}]"
        if x < 0.76 and self.recs:
            return f"{r.choice(self.recs)}.{r.choice(['x', 'y', 'diff'])}"
        if x < 0.80 and self.qs:
            q = r.choice(self.qs)
            return r.choice([f"{q}.p.x", f"{q}.p.y", f"{q}.k", f"{q}.a[{r.randrange(3)}]", f"{q}.a[{self.small(3)}]"])
        if x < 0.86 and self.arrs:
            n, k = r.choice(self.arrs)
            return f"{n}[{self.small(k)}]"
        if x < 0.88 and self.dicts:
            n, ks = r.choice(self.dicts)
            return f"{n}[{r.choice(ks)}]"
        return self.lit()

    def small(self, k):
        """An index expression in 0..k-1."""
        r = self.r
        x = r.random()
        if x < 0.4:
            return str(r.randrange(k))
        v = self.nums + self.ro
        a = r.choice(v) if v and x < 0.8 else f"inp({r.randrange(self.nin)})"
        if self.hostile and r.random() < 0.2:
            self.f("index")
            j = r.randrange(self.nin)
            a = f"({a} + {r.choice([f'inp({j})', f'(inp({j}) - inp({j}))'])})"  # not known to be out of range at compile time
            return r.choice([f"int({a}) % {k + 2} - 1", f"{a} % {k + 1}", f"-1 - int({a}) % {k + 1}", f"{a} % {k} + 0.5 * ({a} > 6)"])
        return f"int({a}) % {k}"

    def num(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.atom()
        x = r.random()
        n = lambda: self.num(d - 1)
        if x < 0.20:
            return f"({n()} {r.choice(['+', '-', '+', '-', '+'])} {n()})"
        if x < 0.26:
            return f"({n()} * {n()} % 97)"
        if x < 0.30:
            return f"({n()} // {r.choice([2, 3, 4, -3, 5])})"
        if x < 0.34:
            return f"({n()} % {r.choice([2, 3, 5, 7, -4, 2.5])})"
        if x < 0.36:
            return f"({n()} / {r.choice([2, 4, 0.5, -8])})"
        if x < 0.38:
            return f"(({n()} % 5) ** {r.choice([0, 1, 2, 3])})"
        if x < 0.42:
            return f"({r.choice(['-', '+', 'not '])}{n()})"
        if x < 0.50:
            return self.cond(d)
        if x < 0.56:
            self.f("ifexp")
            return f"({n()} if {self.cond(d - 1)} else {n()})"
        if x < 0.64:
            return f"tap({n()})"
        if x < 0.67 and self.nums and not self.gen:
            self.f("walrus")
            return f"({r.choice(self.nums)} := {n()} % 89)"
        if x < 0.74:
            return self.call(d)
        if x < 0.79:
            return r.choice([f"abs({n()})", f"min({n()}, {n()})", f"max({n()}, {n()}, {n()})", f"int({n()})", f"math.floor({n()})",
                             f"math.ceil({n()})", f"math.trunc({n()})", f"max({n()}, {n()})", f"min({n()}, {n()}, {n()})"])
        if x < 0.84 and self.recs:
            p = r.choice(self.recs)
            self.f("method")
            return r.choice([f"{p}.total()", f"{p}.bump({r.randint(-3, 3)})", f"P.mix({n()}, {n()})", f"{p}.mix(b={n()}, a={n()})", f"P.of({n()}).total()", f"{p}({n()})",
                             f"({p} + P({n()}, {n()})).total()", f"({n()} in {p})", f"(1 if P({n()}, {n()}) == {p} else 0)", f"({p} + P({n()}, 2)).y", f"P(y={n()}, x={n()}).diff"])
        if x < 0.87 and self.lams:
            nm, k = r.choice(self.lams)
            return f"{nm}({self.args(k, n)})"
        if x < 0.90:
            self.f("in-tuple")
            return f"({n()} {r.choice(['in', 'not in'])} ({', '.join(n() for _ in range(r.randint(1, 3)))},))"
        if x < 0.93 and self.tups:
            nm, k = r.choice(self.tups)
            return r.choice([f"len({nm})", f"sum({nm})" , f"max({nm})", f"min({nm})", f"first(*{nm})", f"first({n()}, *{nm})"])
        if x < 0.955:
            return self.genexp(d)
        if x < 0.97 and self.arrs:
            nm, k = r.choice(self.arrs)
            return r.choice([f"sum({nm})", f"max({nm})", f"min({nm})", f"len({nm})", f"({n()} in {nm})", f"sum({nm}, {n()})"])
        if x < 0.985:
            self.f("lambda-now")
            return f"(lambda u, v={n()}: u - v * 2)({n()})"
        return self.atom()

    def genexp(self, d):
        r = self.r
        self.f("genexp")
        v = self.new("g")
        g = self.gen
        self.gen = True
        src = self.iterable(True)
        save = list(self.ro)
        self.ro = self.ro + [v]
        e = self.num(min(d - 1, 1))
        cond = f" if {self.cond(1)}" if r.random() < 0.4 else ""
        if r.random() < 0.15:
            cond += f" if {self.cond(0)}"
        inner = ""
        if r.random() < 0.2:
            v2 = self.new("g")
            self.ro = self.ro + [v2]
            inner = f" for {v2} in {r.choice([f'range({r.randint(0, 3)})', '(1, 4)', f'range(int({v}) % 3)'])}"
            e = self.num(1)
            if r.random() < 0.3:
                inner += f" if {self.cond(1)}"
        self.gen = g
        self.ro = save
        fn = r.choice(["sum", "sum", "max", "min"])
        if fn == "sum":
            return f"sum({e} for {v} in {src}{cond}{inner})"
        return f"{fn}(({e} for {v} in {src}{cond}{inner}), default={r.randint(-3, 3)})"

    def cond(self, d=1):
        r = self.r
        x = r.random()
        n = lambda: self.num(max(d - 1, 0))
        op = lambda: r.choice(["<", "<=", ">", ">=", "==", "!="])
        if x < 0.45 or d <= 0:
            return f"({n()} {op()} {n()})"
        if x < 0.57:
            self.f("chain")
            return f"({n()} {op()} {n()} {op()} {n()})"
        if x < 0.82:
            o = r.choice(["and", "or"])
            return "(" + f" {o} ".join(self.cond(d - 1) if r.random() < 0.7 else n() for _ in range(r.choice([2, 2, 3]))) + ")"
        if x < 0.9:
            return f"(not {self.cond(d - 1)})"
        return n()

    def call(self, d):
        r = self.r
        n = lambda: self.num(d - 1)
        hs = [h for h in self.helpers if h[2] == "num"]
        if hs and r.random() < 0.6:
            name, k, _ = r.choice(hs)
            self.f("helper")
            a = [n() for _ in range(k)]
            if k >= 2 and r.random() < 0.3:
                return f"{name}({', '.join(a[:-1])}, p{k - 1}={a[-1]})"
            return f"{name}({', '.join(a)})"
        return r.choice([
            lambda: f"first({', '.join(n() for _ in range(r.randint(1, 4)))})",
            lambda: f"first(*({n()}, {n()}), {n()})",
            lambda: f"kws({n()}, **{{'b': {n()}}})",
            lambda: f"kw({n()}, d={n()})",
            lambda: f"kw({n()}, {n()}, d={n()}, c={n()})",
            lambda: f"kw(b={n()}, d={n()}, a={n()})",
            lambda: f"posonly({n()}, c={n()})",
            lambda: f"posonly({n()}, {n()})",
            lambda: f"kws({n()}, z={n()}, a2={n()})",
        ])()

    def signature(self):
        """(parameter list, names, what a call may pass)."""
        r = self.r
        po, pk, ko = r.choice([0, 0, 1, 2]), r.choice([0, 1, 1, 2]), r.choice([0, 0, 0, 1, 2])
        nd = r.randint(0, po + pk)  # the last nd positional parameters have defaults
        dflt = lambda: r.choice([self.lit(), self.lit(), self.num(0)])
        ps, spec = [], []
        for i in range(po + pk):
            u = self.new("u")
            d = i >= po + pk - nd
            ps.append(f"{u}={dflt()}" if d else u)
            spec.append(("po" if i < po else "pk", u, d))
            if i == po - 1:
                ps.append("/")
        star = r.random() < 0.2
        if star:
            u = self.new("u")
            ps.append("*" + u)
            spec.append(("var", u, True))
        elif ko:
            ps.append("*")
        for _ in range(ko):
            u = self.new("u")
            d = r.random() < 0.5
            ps.append(f"{u}={dflt()}" if d else u)
            spec.append(("ko", u, d))
        self.f("signature")
        return ", ".join(ps), spec

    def args(self, k, n):
        """The arguments of a call: k is a number of positional parameters or what signature() said."""
        r = self.r
        if isinstance(k, int):
            return ", ".join(n() for _ in range(k))
        pos, kws = [], []
        named = skipped = False
        for kind, u, d in k:
            if kind == "var":
                if not named and not skipped:
                    pos += [n() for _ in range(r.choice([0, 1, 2, 3]))]
            elif d and r.random() < 0.5:
                skipped = True
            elif kind == "po":
                if not skipped:
                    pos.append(n())
            elif kind == "ko" or named or skipped or r.random() < 0.3:
                kws.append(f"{u}={n()}")
                named = True
            else:
                pos.append(n())
        r.shuffle(kws)
        return ", ".join(pos + kws)

    def iterable(self, short=False, tup=None):
        """An expression iterating over numbers, at most four of them."""
        r = self.r
        x = r.random()
        if tup:
            x = r.uniform(0.30, 0.55)
        elif tup is False and (0.30 <= x < 0.55 or x >= 0.85):
            x = 0.1
        if x < 0.30:
            return r.choice([f"range({r.randint(0, 4)})", f"range({r.randint(-2, 2)}, {r.randint(0, 4)})", f"range({r.randint(0, 5)}, {r.randint(-3, 2)}, {r.choice([-1, -2, -3])})",
                             f"range({self.small(4)})", f"range({self.small(3)}, {r.randint(1, 5)}, {r.choice([1, 2])})", f"range(1, {self.small(5)})",
                             f"range({self.small(4)}, {r.randint(-2, 1)}, -{r.choice([1, 2])})"])
        if x < 0.45:
            return "(" + "".join(self.num(1) + ", " for _ in range(r.randint(1, 3))) + ")"
        if x < 0.55 and self.tups:
            return r.choice(self.tups)[0]
        if x < 0.68 and self.arrs:
            a = r.choice(self.arrs)[0]
            return r.choice([a, a, f"reversed({a})", f"map(lambda q: q * 2 + 1, {a})", f"filter(lambda q: q > 1, {a})"])
        gs = [h for h in self.helpers if h[2] == "gen"]
        if x < 0.85 and gs and not self.gen:
            nm, k, _ = r.choice(gs)
            self.f("generator")
            return f"{nm}({', '.join(self.num(1) for _ in range(k))})"
        if x < 0.9:
            return f"reversed(range({r.randint(0, 4)}))"
        return f"range({r.randint(1, 4)})"

    # -- statements -------------------------------------------------------------
    def wrap(self, e):
        return f"{e} % {self.r.choice([97, 61, 31])}"

    def target(self):
        r = self.r
        c = []
        if self.nums:
            c += [r.choice(self.nums)] * 3
        if self.recs:
            c += [f"{r.choice(self.recs)}.{r.choice(['x', 'y', 'diff'])}"]
        if self.qs:
            q = r.choice(self.qs)
            c += [f"{q}.p.{r.choice('xy')}", f"{q}.a[{self.small(3)}]", f"{q}.k"]
        if self.arrs:
            n, k = r.choice(self.arrs)
            c += [f"{n}[{self.small(k)}]", f"{n}[tap({self.small(k)})]"]
        return r.choice(c) if c else None

    def block(self, body, *more):
        """Emits an indented suite with its own non-numeric variables."""
        save = (list(self.tups), list(self.recs), list(self.qs), list(self.arrs), list(self.dicts), list(self.lams), list(self.ro), list(self.nums))
        self.ind += 1
        n0 = len(self.lines)
        body(*more)
        if len(self.lines) == n0:
            self.w("pass")
        self.ind -= 1
        self.tups, self.recs, self.qs, self.arrs, self.dicts, self.lams, self.ro, self.nums = save

    def stmts(self, n):
        """True if control cannot come out at the end."""
        for _ in range(n):
            if self.budget <= 0:
                return False
            if self.stmt():
                return True
        return False

    def leave(self):
        """Possibly ends a suite with a jump; True if it did."""
        r = self.r
        if self.loops and r.random() < 0.25:
            self.w(r.choice(["break", "continue"]))
            self.f("loop-jump")
            return True
        if self.infn == "num" and r.random() < 0.3:
            self.w(f"return {self.num(1)}")
            self.f("early-return")
            return True
        if self.infn == "gen" and r.random() < 0.1:
            self.w("return")
            return True
        if self.infn == "proc" and r.random() < 0.3:
            self.w(r.choice(["return", "return None"]))
            self.f("early-return")
            return True
        return False

    def proc(self):
        """Calls a function for its effects."""
        r = self.r
        hs = [h for h in self.helpers if h[2] == "proc"]
        if not hs:
            return False
        nm, k, _ = r.choice(hs)
        self.f("proc-in-generator" if self.gen else "proc")
        self.w(f"{nm}({', '.join(self.num(1) for _ in range(k))})")
        return True

    def suite(self, n):
        def go():
            if not self.stmts(n):
                self.leave()
        self.nest += 1
        self.block(go)
        self.nest -= 1

    def check(self):
        """A check that fails for some inputs."""
        r = self.r
        self.k += 1
        m = f"m{self.k}"
        e = self.num(r.choice([0, 1, 1, 2]))
        i = f"inp({r.randrange(self.nin)})"
        k = r.choice([5, 7, 11, 13])
        c = r.choice([f"({i} + {e}) % {k} != {r.randrange(k)}", f"{i} < 9 - {e} % 5", f"{i} + {e} > -30", f"not {i} * 2 == {e}", f"-40 < {i} + {e} < 40",
                      f"{i} != 5 and {i} - {e} != 4", f"{i} > 7 or {i} + {e} != 1", f"({i} + {e}) % {k} >= 1"])
        x = r.random()
        if x < 0.35:
            self.f("assert")
            self.w(f'assert {c}, "{m}"')
        elif x < 0.55:
            self.f("require")
            self.w(f'require({c}, "{m}")')
        elif x < 0.75:
            self.f("error")
            self.w(f"if not ({c}):")
            self.w(f'    {r.choice([f"""error("{m}")"""] * 4 + ["terminate()"])}')
            if r.random() < 0.3:
                self.w("else:")
                self.w(f"    tap({self.num(1)})")
        elif x < 0.85:
            self.f("assert_true")
            self.w(r.choice([f'assert_true({c}, "{m}")', f'assert_false(not ({c}), "{m}")']))
        elif x < 0.93:
            self.f("notify")
            self.w(f'notify("{m}")')
        else:
            self.f("ifexp-error")
            self.w(f"tap({self.num(1)}) if {c} else error(\"{m}\")")

    def nexts(self):
        """Advances a generator by hand, perhaps too often."""
        r = self.r
        gs = [h for h in self.helpers if h[2] == "gen"]
        if not gs or self.gen:
            return
        nm, k, _ = r.choice(gs)
        it, a, b = self.new("it"), self.new("n"), self.new("n")
        self.f("next")
        self.w(f"{it} = {nm}({', '.join(self.num(1) for _ in range(k))})")
        live = []

        def between():
            # values that must survive the generator's next steps
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                v = self.new("n")
                self.w(f"{v} = {r.choice([self.num(1), f'inp({r.randrange(self.nin)}) + {r.randrange(9)}'])}")
                if r.random() < 0.4:
                    self.w(f"if inp({r.randrange(self.nin)}) > {r.randrange(-2, 5)}:")
                    self.w(f"    {v} = {self.num(1)}")
                live.append(v)
            if r.random() < 0.25:
                self.proc()
        between()
        self.w(f"{a} = next({it})")
        self.ro.append(a)
        between()
        self.ro += live
        if r.random() < 0.5:
            self.w(f"{b} = next({it})")
            self.w(f"debug_log({a} - {b} * 2)")
            self.ro.append(b)
        if r.random() < 0.5:
            self.w(f"debug_log(sum({it}))")
        for v in live:
            self.w(f"debug_log({v})")

    def stmt(self):
        r = self.r
        self.budget -= 1
        if self.hostile and r.random() < self.hostile:
            return self.check()
        x = r.random()
        deep = self.nest >= 4
        if x < 0.16:
            self.w(f"debug_log({self.num(2)})")
        elif x < 0.30 and self.nums:
            self.w(f"{r.choice(self.nums)} = {self.wrap(self.num(2))}")
        elif x < 0.34:
            t, u = self.target(), self.target()
            if t and u:
                self.f("multi-assign")
                self.w(f"{t} = {u} = {self.wrap(self.num(1))}")
        elif x < 0.43:
            t = self.target()
            if t:
                y = r.random()
                if y < 0.6:
                    self.w(f"{t} {r.choice(['+=', '-='])} {self.wrap(self.num(1))}")
                elif y < 0.8:
                    self.w(f"{t} {r.choice(['%=', '//='])} {r.choice([2, 3, 7, 11])}")
                else:
                    self.w(f"{t} *= {r.choice([2, 3, -1])}")
                    self.w(f"{t} %= 53")
        elif x < 0.48:
            ts = [self.target() for _ in range(r.choice([2, 2, 3]))]
            if all(ts):
                self.f("destructure")
                if r.random() < 0.3 and len(ts) == 3:
                    self.w(f"({ts[0]}, {ts[1]}), {ts[2]} = ({self.wrap(self.num(1))}, {self.wrap(self.num(1))}), {self.wrap(self.num(1))}")
                elif r.random() < 0.4:
                    us = ts[1:] + ts[:1]
                    self.w(f"{', '.join(ts)} = {', '.join(us)}")
                else:
                    self.w(f"{', '.join(ts)} = {', '.join(self.wrap(self.num(1)) for _ in ts)}")
        elif x < 0.52:
            t = self.target()
            if t:
                self.w(f"{t} = {self.wrap(self.num(2))}")
        elif x < 0.60:
            if r.random() < 0.15:
                self.nexts()
            elif r.random() < 0.12 and self.proc():
                pass
            else:
                self.define()
        elif x < 0.72 and not deep:
            return self.if_()
        elif x < 0.80 and not deep:
            return self.for_()
        elif x < 0.85 and not deep:
            return self.while_()
        elif x < 0.90 and not deep:
            return self.match_()
        elif x < 0.92 and self.recs and len(self.recs) > 1:
            a, b = r.sample(self.recs, 2)
            if a in self.outer:
                return False  # an augmented assignment would make it local to the nested function
            self.f("record-copy")
            self.w(r.choice([f"{a} @= {b}", f"{a} @= P({self.num(1)}, {self.num(1)})", f"{a} @= {a} + {b}"]))
        elif x < 0.935 and self.qs:
            q = r.choice(self.qs)
            p = r.choice(self.recs) if self.recs else f"P({self.num(1)}, 3)"
            self.w(r.choice([f"{q}.p = {p}", f"{q}.p.bump({self.num(1)} % 9)", f"{q}.a = Array({self.num(1)}, 5, {self.num(0)})", f"{q}.p @= {p}"]))
        elif x < 0.955 and not deep and not self.gen and self.infn is None:
            self.localdef()
        elif x < 0.97 and self.infn == "gen":
            self.yield_()
        elif x < 0.98:
            self.w(r.choice([f"tap({self.num(1)})", "pass", self.num(1), f"tap({self.atom()}) if {self.cond(1)} else tap({self.atom()})"]))
        else:
            v = self.new("n")
            self.w(f"{v} = {self.wrap(self.num(2))}")
            self.nums.append(v)
        return False

    def define(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            v = self.new("t")
            k = r.randint(1, 3)
            self.w(f"{v} = ({''.join(self.num(1) + ', ' for _ in range(k))})")
            self.tups.append((v, k))
        elif x < 0.45:
            v = self.new("r")
            e = r.choice([f"P({self.num(1)}, {self.num(1)})", f"P(y={self.num(1)}, x={self.num(1)})", f"P.of({self.num(1)})", "+P"])
            if self.recs and r.random() < 0.4:
                o = r.choice(self.recs)
                e = r.choice([f"+{o}", o, f"{o} + P(1, {self.num(0)})", f"{self.num(0)} + {o}" if False else f"+{o}"])
                self.f("alias")
            self.w(f"{v} = {e}")
            self.recs.append(v)
        elif x < 0.55:
            v = self.new("q")
            p = r.choice(self.recs) if self.recs and r.random() < 0.6 else f"P({self.num(1)}, {self.num(1)})"
            self.w(f"{v} = Q({p}, Array({self.num(1)}, {self.num(1)}, {self.num(1)}), {self.num(1)})")
            self.qs.append(v)
        elif x < 0.75:
            v = self.new("a")
            k = r.randint(1, 4)
            if self.arrs and r.random() < 0.3:
                o, k = r.choice(self.arrs)
                self.w(f"{v} = {r.choice(['+', ''])}{o}")
            elif r.random() < 0.2:
                self.w(f"{v} = +Array[int, {k}]")
            else:
                self.w(f"{v} = Array({', '.join(self.num(1) for _ in range(k))})")
            self.arrs.append((v, k))
        elif x < 0.85:
            v = self.new("d")
            ks = r.sample(['1', '2', '"a"', '"b"', 'None', '(1, 2)'], r.randint(1, 3))
            self.w(f"{v} = {{{', '.join(f'{k}: {self.num(1)}' for k in ks)}}}")
            self.dicts.append((v, ks))
            self.f("dict")
        elif x < 0.95 and not self.gen:
            v = self.new("f")
            k = r.randint(1, 2)
            if r.random() < 0.4:
                head, k = self.signature()
                ps = [u for kind, u, _ in k if kind != "var"]
            else:
                ps = [self.new("u") for _ in range(k)]
                head = ", ".join(ps)
            self.f("lambda")
            save = self.ro, self.nums, self.gen
            # closures see the variables as they are at the call
            self.ro, self.gen = self.ro + ps, True
            e = self.num(2)
            self.ro, self.nums, self.gen = save
            if not isinstance(k, int) and any(x[0] == "var" for x in k):
                u = next(u for kind, u, _ in k if kind == "var")
                e = f"{e} + len({u}) + sum({u})"
            self.w(f"{v} = lambda {head}: {e}")
            self.lams.append((v, k))
        elif self.recs:
            v = self.new("r")
            self.w(f"{v} = {r.choice(self.recs)}")
            self.recs.append(v)

    def if_(self):
        r = self.r
        n = r.choice([0, 0, 1, 2])
        self.f("if")
        alldead = True
        self.w(f"if {self.cond(2)}:")
        n0 = self.budget
        self.suite(r.randint(1, 3))
        for _ in range(n):
            self.w(f"elif {self.cond(2)}:")
            self.suite(r.randint(1, 2))
        if r.random() < 0.5:
            self.w("else:")
            self.suite(r.randint(1, 3))
        if r.random() < 0.15 and not self.gen:
            # a variable that every path defines
            v = self.new("n")
            self.w(f"if {self.cond(1)}:")
            self.w(f"    {v} = {self.wrap(self.num(1))}")
            self.w("else:")
            self.w(f"    {v} = {self.wrap(self.num(1))}")
            self.nums.append(v)
        return False

    def loop_body(self, n):
        self.loops += 1
        m = self.mult
        self.mult *= 3
        if self.r.random() < 0.35:
            self.f("loop-exits")
            self.ind += 1
            self.nest += 1
            for _ in range(self.r.choice([1, 2, 2, 3])):
                self.w(f"if {self.cond(1)}:")
                if self.r.random() < 0.6 and self.nums:
                    self.w(f"    {self.r.choice(self.nums)} = {self.wrap(self.num(1))}")
                self.w(f"    {self.r.choice(['break', 'break', 'break', 'continue'])}")
            self.nest -= 1
            self.ind -= 1
        self.suite(n)
        self.mult = m
        self.loops -= 1

    def else_(self):
        if self.r.random() < 0.4:
            self.f("loop-else")
            self.w("else:")
            self.suite(self.r.randint(1, 2))

    def for_(self):
        r = self.r
        self.f("for")
        x = r.random()
        if self.mult > 30:
            self.w(f"debug_log({self.num(1)})")
            return False
        save = list(self.ro)
        i = self.new("i")
        keep = r.random() < 0.3
        if keep:
            self.w(f"{i} = {self.lit()}")
        if x < 0.62:
            self.w(f"for {i} in {self.iterable()}:")
        elif x < 0.72:
            j = self.new("j")
            self.w(f"for {j}, {i} in enumerate({self.iterable()}{r.choice(['', ', 2', ', start=3'])}):")
            self.ro.append(j)
        elif x < 0.80:
            j = self.new("j")
            tup = r.random() < 0.3
            self.w(f"for {i}, {j} in zip({self.iterable(tup=tup)}, {self.iterable(tup=tup)}):")
            self.ro.append(j)
            self.f("zip")
        elif x < 0.86 and self.recs:
            q = self.new("r")
            ps = [r.choice(self.recs) for _ in range(r.randint(1, 3))]
            self.w(f"for {q} in ({', '.join(ps)},):")
            sr = list(self.recs)
            self.recs = self.recs + [q]
            self.loop_body(r.randint(1, 3))
            self.recs = sr
            self.f("objects")
            return False
        elif x < 0.91 and self.dicts:
            d, ks = r.choice(self.dicts)
            self.w(f"for {i} in {d}.values():")
        elif x < 0.95 and self.recs:
            q = self.new("r")
            n = self.new("b")
            self.w(f"{n} = Array({', '.join(r.choice([r.choice(self.recs), f'P({self.num(1)}, {self.num(1)})']) for _ in range(r.randint(1, 3)))})")
            self.w(f"for {q} in {n}:")
            sr = list(self.recs)
            self.recs = self.recs + [q]
            self.loop_body(r.randint(1, 3))
            self.recs = sr
            self.w(f"debug_log({n}[0].total())")
            self.f("record-array")
            return False
        else:
            self.w(f"for {i} in range({r.randint(1, 4)}):")
        self.ro.append(i)
        if keep and r.random() < 0.5:
            self.nums.append(i)
        self.loop_body(r.randint(1, 4))
        if keep and i in self.nums:
            self.nums.remove(i)
        self.ro = save
        if keep:
            self.ro.append(i)
        self.else_()
        return False

    def while_(self):
        r = self.r
        self.f("while")
        if self.mult > 30:
            return False
        c = self.new("c")
        k = r.randint(1, 4)
        x = r.random()
        self.w(f"{c} = 0")
        save = list(self.ro)
        self.ro.append(c)
        if x < 0.5:
            self.w(f"while {c} < {k}:")
        elif x < 0.8:
            self.w(f"while {c} < {k} and {self.cond(1)}:")
        else:
            self.w("while True:")
        self.ind += 1
        self.w(f"{c} += 1")
        if x >= 0.8:
            self.w(f"if {c} > {k}:")
            self.w("    break")
        self.ind -= 1
        # the counter moves first, so that continue is safe
        self.loop_body(r.randint(1, 4))
        if x < 0.8:
            self.else_()
        self.ro = save
        return False

    def match_(self):
        r = self.r
        self.f("match")
        x = r.random()
        if x < 0.5 or (x < 0.75 and not self.recs):
            self.w(f"match {r.choice([self.num(1), 'int(' + self.num(1) + ') % 4', self.num(1)])}:")
            self.ind += 1
            for _ in range(r.randint(1, 3)):
                y = r.random()
                g = f" if {self.cond(1)}" if r.random() < 0.3 else ""
                if y < 0.5:
                    self.w(f"case {r.randint(-1, 4)}{g}:")
                    self.suite(r.randint(1, 2))
                elif y < 0.75:
                    alts = " | ".join(str(n) for n in r.sample(range(-2, 7), r.choice([2, 2, 3, 4])))
                    v = self.new("m") if r.random() < 0.2 else ""
                    self.w(f"case ({alts}) as {v}{g}:" if v else f"case {alts}{g}:")
                    save = list(self.ro)
                    self.ro += [v] if v else []
                    self.suite(r.randint(1, 2))
                    self.ro = save
                else:
                    v = self.new("m")
                    self.w(f"case Num() as {v} if {v} > {r.randint(0, 3)}:" if False else f"case {v} if {v} > {self.lit()}:")
                    save = list(self.ro)
                    self.ro.append(v)
                    self.suite(r.randint(1, 2))
                    self.ro = save
            if r.random() < 0.6:
                self.w("case _:")
                self.suite(r.randint(1, 2))
            self.ind -= 1
        elif x < 0.75:
            self.w(f"match {r.choice(self.recs)}:")
            self.ind += 1
            for _ in range(r.randint(1, 2)):
                v, u = self.new("m"), self.new("m")
                g = f" if {self.cond(1)}" if r.random() < 0.3 else ""
                pat, caps = r.choice([(f"P({r.randint(0, 3)}, {v})", [v]), (f"P(x={v}, y={u})", [v, u]), (f"P(y={r.randint(0, 3)})", []), (f"P({v}, y={r.randint(0, 2)} | {r.randint(3, 5)})", [v]), (f"P(x={r.randint(0, 1)} | 2 | 3 | -1, y={v})", [v]),
                                      (f"P(1, {v}) | P({v}, 1) | P(y={v}, x=0)", [v]),
                                      (f"P({r.randint(0, 2)} as {v}, {u})", [v, u]), ("P()", [])])
                self.w(f"case {pat}{g}:")
                save = list(self.ro)
                self.ro += caps
                self.suite(r.randint(1, 2))
                self.ro = save
            if r.random() < 0.6:
                self.w("case _:")
                self.suite(r.randint(1, 2))
            self.ind -= 1
        else:
            k = r.randint(1, 3)
            e = r.choice(self.tups)[0] if self.tups and r.random() < 0.4 else "(" + "".join(self.num(1) + ", " for _ in range(k)) + ")"
            self.w(f"match {e}:")
            self.ind += 1
            for _ in range(r.randint(1, 3)):
                k = r.randint(1, 3)
                caps, ps = [], []
                for _ in range(k):
                    y = r.random()
                    if y < 0.4:
                        ps.append(str(r.randint(0, 3)))
                    elif y < 0.6:
                        ps.append("_")
                    else:
                        v = self.new("m")
                        caps.append(v)
                        ps.append(v)
                g = f" if {self.cond(1)}" if r.random() < 0.3 else ""
                self.w(f"case ({''.join(p + ', ' for p in ps)}){g}:")
                save = list(self.ro)
                self.ro += caps
                self.suite(r.randint(1, 2))
                self.ro = save
            if r.random() < 0.6:
                self.w("case _:")
                self.suite(1)
            self.ind -= 1
        return False

    def localdef(self):
        r = self.r
        self.f("nested-def")
        v = self.new("h")
        k = r.randint(0, 2)
        if r.random() < 0.4:
            head, k = self.signature()
            ps = [u for kind, u, _ in k if kind != "var"]
        else:
            ps = [self.new("u") for _ in range(k)]
            head = ", ".join(ps)
        save = (self.nums, self.ro, self.loops, self.infn, self.mult, self.outer)
        self.outer = set(self.recs)
        outer = self.nums
        self.w(f"def {v}({head}):")
        self.ro = self.ro + outer + ps
        self.nums = []
        self.loops, self.infn = 0, "num"

        def body():
            x = self.new("n")
            self.w(f"{x} = {self.lit()}")
            self.nums.append(x)
            self.stmts(r.randint(1, 3))
            self.w(f"return {self.num(2)}")
        self.nest += 1
        self.block(body)
        self.nest -= 1
        self.nums, self.ro, self.loops, self.infn, self.mult, self.outer = save
        self.lams.append((v, k))
        self.w(f"debug_log({v}({self.args(k, lambda: self.num(1))}))")

    def yield_(self):
        r = self.r
        x = r.random()
        if x < 0.8:
            self.w(f"yield {self.num(1)}")
        else:
            self.f("yield-from")
            self.w(f"yield from {self.iterable()}")

    # -- functions ----------------------------------------------------------------
    def prologue(self, n):
        for _ in range(n):
            v = self.new("n")
            self.w(f"{v} = {self.r.choice([self.lit(), self.atom(), self.wrap(self.num(1))])}")
            self.nums.append(v)

    def helper(self):
        r = self.r
        self.reset()
        name = self.new("f")
        k = r.randint(1, 3)
        ps = [f"p{i}" for i in range(k)]
        kind = r.choice(["num", "num", "gen", "gen", "proc"])
        b = self.budget
        self.budget = r.choice([4, 6, 10])
        self.w(f"def {name}({', '.join(ps)}):")
        self.ro = list(ps)
        if r.random() < 0.3:
            # parameters may be assigned to
            self.ro.remove(ps[0])
            self.nums.append(ps[0])
        self.infn = kind
        self.ind = 1
        self.prologue(r.randint(1, 2))
        self.gen = kind == "gen"
        if kind == "gen":
            self.f("generator-def")
            n0 = len(self.lines)
            for _ in range(r.randint(1, 4)):
                if r.random() < 0.3 and self.proc():
                    continue
                if r.random() < 0.6:
                    self.yield_()
                elif r.random() < 0.5:
                    i = self.new("i")
                    self.w(f"for {i} in {r.choice([f'range({r.randint(1, 3)})', '(3, 1)', f'range(int({ps[-1]}) % 4)'])}:")
                    self.ind += 1
                    save = list(self.ro)
                    self.ro.append(i)
                    if r.random() < 0.4:
                        self.w(f"{self.nums[-1]} = {self.wrap(self.num(1))}")
                    if r.random() < 0.3:
                        self.w(f"if {self.cond(1)}:")
                        self.w(f"    {r.choice(['continue', 'break', f'yield {self.num(1)}'])}")
                    self.yield_()
                    self.ro = save
                    self.ind -= 1
                else:
                    self.stmts(1)
            if not any("yield" in x for x in self.lines[n0:]):
                self.yield_()
        elif kind == "proc":
            self.stmts(r.randint(1, 4))
            self.w(f"debug_log({self.num(1)})")
        else:
            self.stmts(r.randint(2, 4))
            self.w(f"return {self.num(2)}")
        self.ind = 0
        self.w("")
        self.w("")
        self.budget = b
        self.helpers.append((name, k, kind))

    def program(self):
        r = self.r
        for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
            self.helper()
        self.reset()
        self.w("def main():")
        self.ind = 1
        self.prologue(r.randint(2, 4))
        for _ in range(r.randint(0, 3)):
            self.define()
        while self.budget > 0:
            self.stmt()
        for v in self.nums:
            self.w(f"debug_log({v})")
        for p in self.recs:
            self.w(f"debug_log({p}.x)")
            self.w(f"debug_log({p}.y)")
        for q in self.qs:
            self.w(f"debug_log({q}.p.total() + 100 * {q}.k + {q}.a[1])")
        for n, k in self.arrs:
            for j in range(k):
                self.w(f"debug_log({n}[{j}])")
        for n, k in self.tups:
            self.w(f"debug_log({n}[{k - 1}])")
        self.w("debug_log(424242)")
        return HEAD + "\n".join(self.lines) + "\n"


def gen(seed, size=1.0, hostile=0.0):
    g = G(seed, size, hostile)
    return g.program(), g.features
