"""Random histories of operations on collections, as source text for the library or the model."""
import random

HEAD = '''from {mod} import *


class R(Record):
    a: int
    b: Pair[int, int]


def tap(v):
    debug_log(v)
    return v


def code_n(e):
    return e


def code_p(e):
    return e.first * 10 + e.second


def code_r(e):
    return e.a * 100 + e.b.first * 10 + e.b.second


def code_a(e):
    return e[0] * 10 + e[1]


def find_first(xs, f):
    for e in xs:
        if f(e):
            return Some(e)
    return Nothing


def count_if(xs, f):
    n = 0
    for e in xs:
        if f(e):
            n += 1
    return n


'''
TYPES = {"n": "int", "p": "Pair[int, int]", "r": "R", "a": "Array[int, 2]"}


class G:
    def __init__(self, seed, size=1.0, hostile=0.0):
        self.r = random.Random(seed)
        self.lines = []
        self.ind = 1
        self.k = 0
        self.budget = int(self.r.choice([6, 12, 20, 30]) * size)
        self.hostile = hostile
        self.cs = []
        self.loops = []
        self.features = set()
        self.nest = 0

    def new(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def w(self, *ls):
        for s in ls:
            self.lines.append("    " * self.ind + s)

    # -- scalars and elements
    def scalar(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return f"inp({r.randrange(10)})"
        if x < 0.6 and self.loops:
            return r.choice(self.loops)
        if x < 0.7:
            return f"con({r.randrange(10)})"
        if x < 0.85:
            return str(r.randint(-3, 6))
        if x < 0.93:
            return f"({self.scalar()} + {self.scalar()})"
        return f"tap({self.scalar()})"

    def small(self, k=5):
        r = self.r
        x = r.random()
        if x < 0.3:
            return str(r.randrange(k))
        if x < 0.4:
            return f"{self.scalar()} * {r.choice([2, 3, 7])} % {k}"
        return f"{self.scalar()} % {k}"

    def el(self, t):
        r = self.r
        if t == "n":
            x = r.random()
            same = [c for c in self.cs if c["t"] == "n" and c["k"] == "arr"]
            if x < 0.1 and same:
                c = r.choice(same)
                return f"{c['n']}[{self.ix(c['cap'])}]"
            return self.small(r.choice([3, 5, 5, 9]))
        if t == "p":
            return f"Pair({self.small(3)}, {self.small(3)})"
        if t == "a":
            return f"Array({self.small(2)}, {self.small(2)})"
        return f"R({self.small(3)}, Pair({self.small(2)}, {self.small(2)}))"

    def ix(self, n):
        """A valid index of a fixed size collection, sometimes negative."""
        r = self.r
        x = r.random()
        if self.bad():
            return r.choice([str(n), str(-n - 1), f"{self.scalar()} % {n + 2} - 1", f"{n} + {self.scalar()}", "0.5", f"{self.scalar()} / 2"]) + " + (inp(0) - inp(0))"
        if x < 0.3:
            return str(r.randrange(-n, n))
        if x < 0.8:
            return f"int({self.scalar()}) % {n}"
        return f"-1 - int({self.scalar()}) % {n}"

    def dix(self, v):
        """A valid index of a non-empty collection."""
        r = self.r
        x = r.random()
        if self.bad():
            return r.choice([f"len({v})", f"-1 - len({v})", f"int({self.scalar()}) % (len({v}) + 2)", f"{self.scalar()}", "0.25"])
        if x < 0.15:
            return "0"
        if x < 0.3:
            return "-1"
        if x < 0.75:
            return f"int({self.scalar()}) % len({v})"
        return f"-1 - int({self.scalar()}) % len({v})"

    def bad(self):
        return self.r.random() < self.hostile

    def guard(self, cond, *lines):
        if self.bad():
            self.w(*lines)
        else:
            self.w(f"if {cond}:")
            self.ind += 1
            self.w(*lines)
            self.ind -= 1

    def log(self, e, t):
        return f"debug_log(code_{t}({e}))"

    def keyf(self, t):
        r = self.r
        return {"n": r.choice(["lambda e: -e", "lambda e: e % 2", "lambda e: (e - 2) * (e - 2)", "lambda e: e % 3"]),
                "p": r.choice(["lambda e: e.second", "lambda e: -e.first", "lambda e: e.first + e.second", "lambda e: e.tuple[1] * 5 - e.tuple[0]"]),
                "r": r.choice(["lambda e: e.a", "lambda e: e.b", "lambda e: -e.b.second", "lambda e: e.a % 2"]),
                "a": r.choice(["lambda e: e[1]", "lambda e: e[0] * 2 - e[1]"])}[t]

    # -- declarations
    def declare(self):
        r = self.r
        k = r.choice(["va", "va", "va", "arr", "arr", "set", "map", "map", "bag", "rng", "fns"])
        n = self.new("v")
        t = r.choice("nnnppra")
        cap = r.choice([1, 2, 3, 4, 5, 6, 8, 16, 17])
        if k == "va" or k == "bag":
            self.w(f"{n} = VarArray[{TYPES[t]}, {cap}].new()")
            if r.random() < 0.5:
                for _ in range(r.randint(0, cap)):
                    self.w(f"{n}.append({self.el(t)})")
        elif k == "arr":
            cap = r.choice([1, 2, 3, 4, 5, 14, 15, 16, 20])
            t = r.choice("nnnp") if cap > 6 else t
            ctor = r.choice(["Array", f"Array[{TYPES[t]}, {cap}]"])
            self.w(f"{n} = {ctor}({', '.join(self.el(t) for _ in range(cap))})")
        elif k == "set":
            t = r.choice("nnpa")
            self.w(f"{n} = ArraySet[{TYPES[t]}, {cap}].new()")
        elif k == "map":
            t = r.choice("nnpa")
            self.w(f"{n} = ArrayMap[{TYPES[t]}, {TYPES[u]}, {cap}].new()" if (u := r.choice("nnpra")) else "")
            self.cs.append({"n": n, "k": k, "t": t, "u": u, "cap": cap})
            return
        elif k == "rng":
            t = "n"
            s = r.choice([1, 1, 2, 3, -1, -2])
            self.w(f"{n} = range(int(inp({r.randrange(10)})) % 7 - 2, int(inp({r.randrange(10)})) % 9 - 2, {s})")
        else:
            t = "n"
            cap = r.choice([1, 3, 8, 15, 16, 17, 24])
            vals = r.sample([x / r.choice([1, 1, 2]) for x in range(-8, 60, 2)], cap)
            if r.random() < 0.5:
                vals = [f"{v} + 0 * inp({r.randrange(10)})" if r.random() < 0.3 else str(v) for v in vals]
            self.w(f"{n} = FrozenNumSet.of({', '.join(map(str, vals))})")
        self.cs.append({"n": n, "k": k, "t": t, "cap": cap})

    # -- operations
    def op(self):
        r = self.r
        self.budget -= 1
        x = r.random()
        if x < 0.10 and self.nest < 3:
            i = self.new("i")
            self.w(f"for {i} in range({r.choice([2, 3, 5, f'int({self.scalar()}) % 4'])}):")
            self.loops.append(i)
            self.sub(r.randint(1, 4))
            self.loops.pop()
            return
        if x < 0.16 and self.nest < 3:
            self.w(f"if {self.scalar()} {r.choice(['<', '>', '==', '!='])} {self.scalar()}:")
            self.sub(r.randint(1, 2))
            if r.random() < 0.4:
                self.w("else:")
                self.sub(1)
            return
        c = r.choice(self.cs)
        self.features.add(c["k"])
        getattr(self, "op_" + c["k"])(c)

    def sub(self, n):
        self.ind += 1
        self.nest += 1
        n0 = len(self.lines)
        for _ in range(n):
            self.op()
        if len(self.lines) == n0:
            self.w("pass")
        self.nest -= 1
        self.ind -= 1

    def emit(self, name, options):
        r = self.r
        f = r.choice(options)
        self.features.add(name + "." + f.__name__)
        f()

    def op_va(self, c):
        r = self.r
        v, t, cap = c["n"], c["t"], c["cap"]
        room = f"len({v}) < {v}.capacity()" if r.random() < 0.5 else f"not {v}.is_full()"
        some = r.choice([f"len({v}) > 0", f"{v}", f"not not {v}"])

        def append():
            self.guard(room, f"{v}.append{r.choice(['', '', '_unchecked']) if not self.hostile else ''}({self.el(t)})")

        def insert():
            self.guard(room, f"{v}.insert({r.choice([f'int({self.scalar()}) % (len({v}) + 1)', '0', f'len({v})', f'-(int({self.scalar()}) % (len({v}) + 1))']) if not self.bad() else self.scalar()}, {self.el(t)})")

        def insert_own():
            self.guard(f"len({v}) > 0 and {room}", f"{v}.insert({r.choice(['0', f'len({v})', f'int({self.scalar()}) % len({v})'])}, {v}[{self.dix(v)}])")

        def append_own():
            self.guard(f"len({v}) > 0 and {room}", f"{v}.append({v}[{self.dix(v)}])")

        def pop():
            self.guard(some, r.choice([self.log(f"{v}.pop()", t), self.log(f"{v}.pop({self.dix(v)})", t), f"{v}.pop({self.dix(v)})"]))

        def pop_keep():
            x = self.new("x")
            self.guard(some, f"{x} = {v}.pop({self.dix(v)})", f"{v}.append({self.el(t)})", self.log(x, t))

        def delete():
            self.guard(some, f"del {v}[{self.dix(v)}]")

        def remove():
            self.w(f"debug_log({v}.remove({self.el(t)}))")

        def remove_own():
            self.guard(some, f"debug_log({v}.remove({v}[{self.dix(v)}]))")

        def clear():
            if r.random() < 0.4:
                self.w(f"{v}.clear()")
            else:
                pop()

        def set_add():
            self.w(f"debug_log({v}.set_add({self.el(t)}))")

        def extend():
            others = [d for d in self.cs if d["k"] in ("va", "arr") and d["t"] == t]
            o = r.choice(others)["n"]
            self.guard(f"len({v}) + len({o}) <= {cap}", r.choice([f"{v}.extend({o})", f"{v} += {o}"]))

        def fill():
            self.guard("True", f"while {room}:", f"    {v}.append({self.el(t)})")

        def grow_in_loop():
            e = self.new("e")
            self.w(f"for {e} in {v}:", f"    {self.log(e, t)}", f"    if {room}:", f"        {v}.append({self.el(t)})")

        self.emit("va", [append] * 6 + [insert] * 3 + [pop] * 3 + [insert_own, append_own, pop_keep, delete, remove, remove, remove_own, clear, set_add, extend, fill, grow_in_loop]
                  + [lambda: self.op_seq(c, some)] * 12)

    def op_arr(self, c):
        self.op_seq(c, None)

    def op_seq(self, c, some):
        """Operations of every ordered array-like."""
        r = self.r
        v, t = c["n"], c["t"]

        def g(*lines):
            if some:
                self.guard(some, *lines)
            else:
                self.w(*lines)
        ix = (lambda: self.dix(v)) if some else (lambda: self.ix(c["cap"]))

        def get():
            g(self.log(f"{v}[{ix()}]", t))

        def put():
            g(f"{v}[{ix()}] = {self.el(t)}")

        def put_own():
            g(f"{v}[{ix()}] = {v}[{ix()}]")

        def mutate():
            if t == "n":
                g(f"{v}[{ix()}] {r.choice(['+=', '-='])} {self.small(4)}")
            elif t == "p":
                g(f"{v}[{ix()}].{r.choice(['first', 'second'])} += 1")
            elif t == "a":
                g(f"{v}[{ix()}][{self.ix(2)}] += 1")
            else:
                g(f"{v}[{ix()}].{r.choice(['a', 'b.first', 'b.second'])} = {self.small(4)}")

        def index():
            args = [self.el(t)]
            if r.random() < 0.5:
                args.append(r.choice([f"int({self.scalar()}) % 4", str(r.randint(-6, 6)), f"start={r.randint(0, 4)}"]))
                if r.random() < 0.5:
                    args.append(r.choice([f"stop={r.randint(-5, 9)}", f"stop=int({self.scalar()}) % 6"]))
            self.w(f"debug_log({v}.index({', '.join(args)}))")

        def query():
            self.w(r.choice([f"debug_log({v}.count({self.el(t)}))", f"debug_log({v}.last_index({self.el(t)}))", f"debug_log({self.el(t)} in {v})",
                             f"debug_log({self.el(t)} not in {v})", f"debug_log(len({v}))"]))

        def best():
            k = r.choice(["", f"key={self.keyf(t)}"]) if t in "np" else f"key={self.keyf(t)}"
            f = r.choice(["max", "min"])
            if t == "n" and r.random() < 0.3:
                self.w(f"debug_log({f}({v}, default={self.small(9)}{', ' + k if k else ''}))")
            elif r.random() < 0.5:
                self.w(f"debug_log({v}.index_of_{f}({k}))")
            else:
                g(self.log(f"{f}({v}{', ' + k if k else ''})", t))

        def swap():
            g(f"{v}.swap({', '.join((f'int({self.scalar()}) % len({v})' if not self.bad() else self.scalar()) for _ in range(2))})")

        def sort():
            k = [] if t in "np" and r.random() < 0.55 else [f"key={self.keyf(t)}"]
            if r.random() < 0.5:
                k.append(f"reverse={r.choice(['True', 'True', 'False', f'{self.scalar()} > 1'])}")
            self.w(f"{v}.sort({', '.join(k)})")
            if r.random() < 0.6:
                walk()

        def reverse():
            self.w(f"{v}.reverse()")

        def walk():
            e, i = self.new("e"), self.new("j")
            f = r.choice([
                lambda: self.w(f"for {e} in {v}:", f"    {self.log(e, t)}"),
                lambda: self.w(f"for {e} in reversed({v}):", f"    {self.log(e, t)}"),
                lambda: self.w(f"for {i}, {e} in enumerate({v}{r.choice(['', ', 3', ', start=2'])}):", f"    debug_log({i})", f"    {self.log(e, t)}"),
                lambda: self.w(f"for {i} in range(len({v})):", f"    {self.log(f'{v}[{i}]', t)}"),
                lambda: self.w(f"for {e} in {v}:", f"    if code_{t}({e}) == {self.small(5)}:", f"        {r.choice(['break', 'continue'])}", f"    {self.log(e, t)}", "else:", "    debug_log(777)"),
                lambda: self.w(f"for {e} in filter(lambda q: code_{t}(q) % 2 == 0, {v}):", f"    {self.log(e, t)}"),
                lambda: self.w(f"for {e} in map(lambda q: code_{t}(q) + 1, {v}):", f"    debug_log({e})"),
                lambda: self.w(f"for {e}, {i} in zip({v}, reversed({v})):", f"    {self.log(e, t)}", f"    {self.log(i, t)}"),
                lambda: self.w(f"for {i}, {e} in enumerate(reversed({v})):", f"    debug_log({i} * 1000 + code_{t}({e}))"),
                lambda: self.w(f"debug_log(sum(code_{t}({e}) for {e} in {v}))", f"debug_log(count_if({v}, lambda q: code_{t}(q) > 1))"),
                lambda: self.w(f"debug_log(any(code_{t}({e}) == 1 for {e} in {v}))", f"debug_log(all(code_{t}({e}) < 3 for {e} in {v}))"),
            ])
            f()

        def rev_view():
            q = self.new("q")
            g(f"{q} = reversed({v})", self.log(f"{q}[{ix()}]", t), f"debug_log({q}.index({self.el(t)}))", f"debug_log(len({q}))")

        def rev_put():
            q = self.new("q")
            g(f"{q} = reversed({v})", f"{q}[{ix()}] = {self.el(t)}")

        def equal():
            others = [d for d in self.cs if d["k"] in ("va", "arr") and d["t"] == t]
            o = r.choice(others)["n"]
            self.w(f"debug_log({v} {r.choice(['==', '!='])} {o})")

        def maybe():
            q = self.new("q")
            th = self.small(5)
            self.w(f"{q} = find_first({v}, lambda e: code_{t}(e) > {th})", f"debug_log({q}.is_some)")
            y = r.random()
            if y < 0.25:
                self.w(f"if {q}.is_some:", f"    {self.log(f'{q}.get()', t)}")
            elif y < 0.45 and t in "pra":
                self.w(self.log(f"{q}.or_default({self.el(t)})", t))
            elif y < 0.45:
                self.w(f"debug_log({q}.or_default({self.small(5)}))")
            elif y < 0.6:
                self.w(f"debug_log({q}.map(lambda e: code_{t}(e) * 2).or_default(-1))")
            elif y < 0.75:
                self.w(f"debug_log({q}.or_else(lambda: {self.el(t)}) == {self.el(t)})" if t != "n" else f"debug_log({q}.or_else(lambda: tap({self.small(5)})))")
            elif self.bad():
                self.w(self.log(f"{q}.get()", t))
            else:
                self.w(f"debug_log({q}.is_nothing)")

        def iterate():
            q = self.new("q")
            if self.bad():
                self.w(f"{q} = iter({v})", self.log(f"next({q})", t), self.log(f"next({q})", t))
            else:
                self.w(f"if len({v}) > 1:", f"    {q} = iter({v})", f"    {self.log(f'next({q})', t)}", f"    {self.log(f'next({q})', t)}", f"    debug_log(sum(code_{t}(e) for e in {q}))")

        self.emit("seq", [get] * 3 + [put] * 3 + [mutate] * 2 + [put_own, index, index, query, query, best, best, swap, sort, sort, reverse] + [walk] * 4 + [rev_view, rev_put, equal, maybe, maybe, iterate])

    def op_bag(self, c):
        """A VarArray whose order is unspecified after set_remove."""
        r = self.r
        v, t, cap = c["n"], c["t"], c["cap"]

        def add():
            self.w(f"debug_log({v}.set_add({self.el(t)}))")

        def remove():
            self.w(f"debug_log({v}.set_remove({self.el(t)}))")

        def append():
            self.guard(f"not {v}.is_full()", f"{v}.append({self.el(t)})")

        def ask():
            self.w(f"debug_log({self.el(t)} in {v})", f"debug_log(len({v}))", f"debug_log({v}.count({self.el(t)}))")

        def total():
            self.w(f"debug_log(sum(code_{t}(e) for e in {v}))", f"debug_log(sum(code_{t}(e) * code_{t}(e) for e in {v}))")

        def remove_own():
            q = self.new("q")
            self.w(f"if len({v}) > 0:", f"    {q} = {v}[0]", f"    debug_log({v}.set_remove({q}))", f"    {v}.clear()")

        self.emit("bag", [add] * 4 + [remove] * 4 + [append, append, ask, total, total, remove_own])

    def op_set(self, c):
        r = self.r
        v, t = c["n"], c["t"]

        def add():
            self.w(f"debug_log({v}.add({self.el(t)}))")

        def add_quiet():
            self.w(f"{v}.add({self.el(t)})")

        def remove():
            self.w(f"debug_log({v}.remove({self.el(t)}))")

        def ask():
            self.w(f"debug_log({self.el(t)} {r.choice(['in', 'not in'])} {v})", f"debug_log(len({v}))")

        def total():
            self.w(f"debug_log(sum(code_{t}(e) for e in {v}))", f"debug_log(sum(code_{t}(e) * code_{t}(e) for e in {v}))")

        def clear():
            if r.random() < 0.3:
                self.w(f"{v}.clear()")

        self.emit("set", [add] * 4 + [add_quiet] * 2 + [remove] * 4 + [ask, ask, total, total, clear])

    def op_map(self, c):
        r = self.r
        v, t, u, cap = c["n"], c["t"], c["u"], c["cap"]

        def with_key(f, cond):
            q = self.new("k")
            e = self.el(t)
            self.w(f"{q} = {e}")
            self.guard(cond.format(q=q), *f(q))

        def put():
            with_key(lambda q: [f"{v}[{q}] = {self.el(u)}"], "{q} in " + f"{v} or not {v}.is_full()")

        def get():
            with_key(lambda q: [self.log(f"{v}[{q}]", u)], "{q} in " + v)

        def mutate():
            what = {"n": "{} += 1", "p": "{}.first += 1", "r": "{}.b.second += 2", "a": "{}[1] += 1"}[u]
            with_key(lambda q: [what.format(f"{v}[{q}]")], "{q} in " + v)

        def delete():
            with_key(lambda q: [f"del {v}[{q}]"], "{q} in " + v)

        def pop():
            with_key(lambda q: [self.log(f"{v}.pop({q})", u)], "{q} in " + v)

        def ask():
            self.w(f"debug_log({self.el(t)} {r.choice(['in', 'not in'])} {v})", f"debug_log(len({v}))", f"debug_log({v}.is_full())")

        def total():
            a, b = self.new("e"), self.new("e")
            self.w(r.choice([f"debug_log(sum(code_{t}({a}) * 7 + code_{u}({b}) * code_{u}({b}) * (code_{t}({a}) + 1) for {a}, {b} in {v}.items()))",
                             f"debug_log(sum(code_{u}({b}) for {b} in {v}.values()))", f"debug_log(sum(code_{t}({a}) * code_{t}({a}) for {a} in {v}))",
                             f"debug_log(sum(code_{t}({a}) for {a} in {v}.keys()))"]))

        def bump_all():
            b = self.new("e")
            what = {"n": None, "p": "{}.second += 1", "r": "{}.a += 1", "a": "{}[0] += 1"}[u]
            if what:
                self.w(f"for {b} in {v}.values():", f"    {what.format(b)}")
            else:
                total()

        def clear():
            if r.random() < 0.3:
                self.w(f"{v}.clear()")

        self.emit("map", [put] * 7 + [get] * 2 + [mutate, delete, delete, pop, pop, ask, total, total, bump_all, clear])

    def op_rng(self, c):
        r = self.r
        v = c["n"]

        def ask():
            self.w(f"debug_log({self.scalar()} in {v})", f"debug_log(len({v}))")

        def get():
            self.guard(r.choice([f"len({v}) > 0", f"{v}"]), f"debug_log({v}[{self.dix(v)}])")

        def walk():
            e = self.new("e")
            self.w(f"for {e} in {r.choice([v, f'reversed({v})'])}:", f"    debug_log({e})")

        def fold():
            self.w(r.choice([f"debug_log(sum({v}))", f"debug_log(sum(e * e for e in {v} if e % 2 == 0))"]))
            self.w(f"debug_log({r.choice(['max', 'min'])}({v}, default=4))")
            self.guard(r.choice([f"len({v}) > 0", f"{v}"]), f"debug_log({r.choice(['max', 'min'])}({v}))")

        def enum():
            e, i = self.new("e"), self.new("j")
            self.w(f"for {i}, {e} in enumerate({v}, {r.randint(0, 2)}):", f"    debug_log({i} * 100 + {e})")

        self.emit("rng", [ask, get, walk, fold, enum])

    def op_fns(self, c):
        r = self.r
        v = c["n"]
        q = r.choice([f"{self.scalar()}", f"{self.scalar()} * 2", f"{r.randint(-10, 62)}", f"{r.randint(-10, 62)} / 2", f"{self.scalar()} / 2"])
        self.w(f"debug_log(({q}) in {v})", f"debug_log(len({v}))")
        if r.random() < 0.3:
            self.w(f"for e in {v}:", "    debug_log(e)")

    def close(self):
        for c in self.cs:
            v, t, k = c["n"], c["t"], c["k"]
            if k in ("va", "arr"):
                self.w(f"for e in {v}:", f"    debug_log(code_{t}(e))", f"debug_log(len({v}))")
            elif k in ("set", "bag"):
                self.w(f"debug_log(sum(code_{t}(e) * code_{t}(e) for e in {v}))", f"debug_log(len({v}))")
            elif k == "map":
                self.w(f"debug_log(sum((code_{t}(a) + 2) * (code_{c['u']}(b) + 3) for a, b in {v}.items()))", f"debug_log(len({v}))")

    def program(self):
        for _ in range(self.r.choice([1, 1, 2, 3])):
            self.declare()
        while self.budget > 0:
            self.op()
        self.close()
        self.w("debug_log(424242)")
        return "def main():\n" + "\n".join(self.lines) + "\n"


def gen(seed, size=1.0, hostile=0.0):
    g = G(seed, size, hostile)
    body = g.program()
    return body, g.features


def source(body, model):
    return HEAD.format(mod="adtmodel" if model else "adtlib") + body
