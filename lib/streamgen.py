"""Random stream declarations with a play callback writing them and a watch callback querying them."""
import random

HEAD = '''from sonolus.script.debug import assert_true, debug_log
from sonolus.script.num import Num
from sonolus.script.record import Record
from sonolus.script.array import Array
from sonolus.script.vec import Vec2
from vin import inp, con


class P(Record):
    x: int
    y: float


class Q(Record):
    p: P
    a: Array[int, 3]
    b: bool


class E(Record):
    pass


class F(Record):
    e: E
    v: Vec2


class B[T](Record):
    v: T
    w: T


def show_n(v):
    debug_log(v)


def show_V(v):
    debug_log(v.x)
    debug_log(v.y)


def show_P(v):
    debug_log(v.x)
    debug_log(v.y)


def show_Q(v):
    show_P(v.p)
    for x in v.a:
        debug_log(x)
    debug_log(v.b)


def show_E(v):
    debug_log(99)


def show_F(v):
    show_V(v.v)


def show_B(v):
    show_P(v.v)
    show_P(v.w)


def show_A(v):
    for x in v:
        debug_log(x)


def show_R(v):
    for x in v:
        show_P(x)


def show_S(v):
    for i in range(2):
        for x in v[i]:
            debug_log(x)


def put(s, k, v):
    s[k] = v


def look(s, k):
    return s[k]


def keys(s, k):
    yield from s.iter_keys_from(k)


'''
REAL = '''from sonolus.script.stream import Stream, StreamGroup, streams
from sonolus.script.runtime import time, prev_time


class Holder[T](Record):
    s: Stream[T]
    k: float


def holder(t, s, k):
    return Holder[t](s, k)


def extra(t, at):
    return Stream[t](at)


'''
MODEL = '''import streammodel as M
from streammodel import time, prev_time


class Holder:
    def __init__(self, s, k):
        self.s, self.k = s, k


def holder(t, s, k):
    return Holder(s, k)


TP = ("rec", P, [("x", "n"), ("y", "n")])
TV = ("rec", Vec2, [("x", "n"), ("y", "n")])
TE = ("rec", E, [])
T = {"n": "n", "P": TP, "V": TV, "E": TE, "F": ("rec", F, [("e", TE), ("v", TV)]),
     "Q": ("rec", Q, [("p", TP), ("a", ("arr", Array, "n", 3)), ("b", "n")]),
     "B": ("rec", B, [("v", TP), ("w", TP)]),
     "A": ("arr", Array, "n", 4), "R": ("arr", Array, TP, 2), "S": ("arr", Array, ("arr", Array, "n", 3), 2)}


def extra(t, at):
    return M.Stream(T[{Num: "n", P: "P", E: "E"}[t]], f"extra{at}")


'''
ANN = {"n": ["int", "float", "bool", "Num"], "V": ["Vec2"], "P": ["P"], "Q": ["Q"], "E": ["E"], "F": ["F"], "B": ["B[P]"],
       "A": ["Array[int, 4]"], "R": ["Array[P, 2]"], "S": ["Array[Array[int, 3], 2]"]}
SIZE = {"n": 1, "V": 2, "P": 2, "Q": 6, "E": 0, "F": 2, "B": 4, "A": 4, "R": 4, "S": 6}


class Gen:
    def __init__(self, seed):
        r = self.r = random.Random(f"str{seed}")
        self.fields = []  # (name, kind, type, n, annotation)
        for i in range(r.randint(1, 6)):
            kind = r.choice(["stream", "stream", "group", "group", "data"])
            t = r.choice("nnnVPPQEFBARS")
            n = r.choice([1, 2, 3, 5, 8, r.randint(1, 12)])
            self.fields.append((f"f{i}", kind, t, n, r.choice(ANN[t])))
        self.tail = []
        if r.random() < 0.35:  # fields added at the end later on
            for i in range(r.randint(1, 3)):
                t = r.choice("nVPQEA")
                self.tail.append((f"t{i}", r.choice(["stream", "group", "data"]), t, r.randint(1, 4), ANN[t][0]))
        self.extras = [(r.choice("nPE"), 500 + 40 * i) for i in range(r.choice([0, 0, 1, 2]))]
        self.v = 0
        self.features = set()

    def decl(self, real, tail):
        fs = self.fields + (self.tail if tail else [])
        if not real:
            return "Streams = M.Streams({%s})\n\n\n" % ", ".join(f"{n!r}: ({k!r}, T[{t!r}], {c})" for n, k, t, c, _ in fs)
        s = "@streams\nclass Streams:\n"
        for n, k, t, c, a in fs:
            s += f"    {n}: " + {"stream": f"Stream[{a}]", "group": f"StreamGroup[{a}, {c}]", "data": a}[k] + "\n"
        return s + "\n\n"

    def source(self, body, real, tail=False):
        return HEAD + (REAL if real else MODEL) + self.decl(real, tail) + body

    def new(self):
        self.v += 1
        return f"v{self.v}"

    # expressions
    def num(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.45:
            return f"inp({r.randrange(12)})"
        if k < 0.6:
            return f"con({r.randrange(12)})"
        if k < 0.8:
            return r.choice(["0", "1", "-1", "2.5", "7", "-3", "0.25"])
        if depth > 1:
            return "4"
        return f"({self.num(depth + 1)} {r.choice('+-*')} {self.num(depth + 1)})"

    def key(self, var=None):
        r = self.r
        if var and r.random() < 0.7:
            return r.choice([f"{var}", f"{var} * 0.5", f"inp({r.randrange(12)}) + {var} * 0.25", f"2 - {var}"])
        k = r.random()
        if k < 0.5:
            return f"inp({r.randrange(12)})"
        if k < 0.6:
            return f"con({r.randrange(12)})"
        if k < 0.75:
            return r.choice(["0", "1", "2", "0.5", "-1", "1e6", "-1000", "3"])
        if k < 0.8:
            return r.choice(["time()", "prev_time()"])
        return f"({self.num()})"

    def value(self, t, var=None):
        n = self.num
        if t == "n":
            return f"({n()} + {var})" if var and self.r.random() < 0.5 else n()
        if t == "V":
            return f"Vec2({n()}, {n()})"
        if t == "P":
            return f"P({self.value('n', var)}, {n()})"
        if t == "Q":
            return f"Q({self.value('P', var)}, Array({n()}, {n()}, {n()}), {n()} > {n()})"
        if t == "E":
            return "E()"
        if t == "F":
            return f"F(E(), {self.value('V')})"
        if t == "B":
            return f"B[P]({self.value('P', var)}, {self.value('P')})"
        if t == "A":
            return f"Array({n()}, {n()}, {self.value('n', var)}, {n()})"
        if t == "R":
            return f"Array({self.value('P')}, {self.value('P', var)})"
        return f"Array(Array({n()}, {n()}, {n()}), Array({n()}, {n()}, {n()}))"

    def index(self, n, var=None, limit=None):
        """An index within a group of n."""
        r = self.r
        if var and limit is not None and limit <= n and r.random() < 0.8:
            return var
        k = r.random()
        if k < 0.4:
            return str(r.randrange(n))
        if k < 0.8:
            return f"(inp({12 + r.randrange(4)}) % {n})"
        return f"(con({12 + r.randrange(4)}) % {n})"

    def stream(self, out, ind, var=None, limit=None):
        """(expression, type) of some stream; may emit a local."""
        r = self.r
        c = [f for f in self.fields if f[1] != "data"]
        if self.extras and (not c or r.random() < 0.2):
            t, at = r.choice(self.extras)
            self.features.add("direct")
            return f"extra({ {'n': 'Num', 'P': 'P', 'E': 'E'}[t]}, {at})", t
        if not c:
            return None, None
        name, kind, t, n, _ = r.choice(c)
        e = f"Streams.{name}"
        if kind == "group":
            i = self.index(n, var, limit)
            self.features.add("group")
            if r.random() < 0.2:
                g = self.new()
                out.append(f"{ind}{g} = {e}")
                e = g
            e = f"{e}[{i}]"
        if r.random() < 0.25:
            v = self.new()
            out.append(f"{ind}{v} = {e}")
            e = v
        if t in "nPE" and r.random() < 0.1:
            v = self.new()
            out.append(f"{ind}{v} = holder({ {'n': 'Num', 'P': 'P', 'E': 'E'}[t]}, {e}, {self.num()})")
            e = f"{v}.s"
            self.features.add("held")
        return e, t

    def write(self, out, ind, var=None, limit=None, depth=0):
        r = self.r
        d = [f for f in self.fields if f[1] == "data" and f[2] != "E"]
        k = r.random()
        if d and k < 0.2:
            f = r.choice(d)
            self.features.add("data")
            if f[2] in "PVFQAS" and r.random() < 0.35:
                n = self.num
                self.features.add("data-component")
                out.append(f"{ind}Streams.{f[0]}" + {"P": f".y = {n()}", "V": f".x = {n()}", "F": f".v = {self.value('V')}", "Q": r.choice([f".p.x = {n()}", f".a[inp(12) % 3] = {n()}"]),
                                                     "A": f"[inp(13) % 4] = {n()}", "S": f"[1][inp(14) % 3] = {n()}"}[f[2]])
                return
            out.append(f"{ind}Streams.{f[0]} = {self.value(f[2], var)}")
            return
        if depth < 2 and k < 0.36:
            self.features.add("loop")
            v = self.new()
            n = r.randint(1, 6)
            out.append(ind + r.choice([f"for {v} in range({n}):", f"for {v} in range(int(inp(16)) % {n} + 1):"]))
            for _ in range(r.randint(1, 2)):
                self.write(out, ind + "    ", v, n, depth + 1)
            return
        if depth < 2 and k < 0.45:
            out.append(f"{ind}if {self.num()} {r.choice(['>', '<=', '=='])} {self.num()}:")
            self.write(out, ind + "    ", var, limit, depth + 1)
            if r.random() < 0.4:
                out.append(f"{ind}else:")
                self.write(out, ind + "    ", var, limit, depth + 1)
            return
        g = [f for f in self.fields if f[1] == "group"]
        if g and k < 0.53:
            f = r.choice(g)
            self.features.add("group-in")
            i = r.choice([f"inp({r.randrange(12, 16)})", f"{r.randint(-1, f[3])}", f"inp({r.randrange(12, 16)}) - 2"])
            v = self.new()
            out.append(f"{ind}{v} = {i}")
            out.append(f"{ind}if {v} in Streams.{f[0]}:")
            out.append(f"{ind}    debug_log({v})")
            out.append(f"{ind}    Streams.{f[0]}[{v}][{self.key(var)}] = {self.value(f[2])}")
            return
        e, t = self.stream(out, ind, var, limit)
        if e is None:
            out.append(f"{ind}debug_log(4)")
            return
        key = self.key(var)
        form = r.random()
        if form < 0.15:
            out.append(f"{ind}put({e}, {key}, {self.value(t, var)})")
            return
        if form < 0.3 and t not in "nE":
            v = self.new()
            out.append(f"{ind}{v} = +({self.value(t, var)})")
            out.append(f"{ind}{e}[{key}] = {v}")
            if t in "PV":
                out.append(f"{ind}{v}.x += 1")
            elif t == "A":
                out.append(f"{ind}{v}[1] -= 3")
            self.features.add("value-reused")
            out.append(f"{ind}{e}[{self.key(var)}] = {v}")
            return
        kv = self.new()
        if form < 0.55 and t not in "nE":
            self.features.add("component")
            out.append(f"{ind}{kv} = {key}")
            out.append(f"{ind}{e}[{kv}] = {self.value(t, var)}")
            n = self.num
            out.append(ind + {"P": f"{e}[{kv}].y = {n()}", "V": f"{e}[{kv}].x = {n()}", "F": f"{e}[{kv}].v = {self.value('V')}",
                              "Q": r.choice([f"{e}[{kv}].p = {self.value('P')}", f"{e}[{kv}].p.y = {n()}", f"{e}[{kv}].a[1] = {n()}", f"{e}[{kv}].b = {n()} > 0"]),
                              "B": f"{e}[{kv}].w = {self.value('P')}",
                              "A": r.choice([f"{e}[{kv}][2] = {n()}", f"{e}[{kv}][inp({r.randrange(12, 16)}) % 4] = {n()}"]),
                              "R": r.choice([f"{e}[{kv}][inp({r.randrange(12, 16)}) % 2] = {self.value('P')}", f"{e}[{kv}][1].x = {n()}"]),
                              "S": r.choice([f"{e}[{kv}][1] = Array({n()}, {n()}, {n()})", f"{e}[{kv}][inp({r.randrange(12, 16)}) % 2][inp({r.randrange(12, 16)}) % 3] = {n()}"])}[t])
            return
        if form < 0.65:
            out.append(f"{ind}{kv} = {key}")
            out.append(f"{ind}{e}[{kv}] = {self.value(t, var)}")
            out.append(f"{ind}{kv} += {r.choice(['1', '0.5', 'inp(3)'])}")
            out.append(f"{ind}{e}[{kv}] = {self.value(t, var)}")
            return
        out.append(f"{ind}{e}[{key}] = {self.value(t, var)}")

    def play(self, trap=False):
        out = ["def play():"]
        n = self.r.randint(2, 9)
        at = self.r.randrange(n) if trap else -1
        for i in range(n):
            self.write(out, "    ")
            if i == at:
                self.trap(out, True)
        out.append("    debug_log(1)")
        return "\n".join(out) + "\n\n\n"

    def trap(self, out, play):
        g = [f for f in self.fields if f[1] == "group"]
        if not g:
            return
        f = self.r.choice(g)
        e = f"Streams.{f[0]}[inp({self.r.randrange(12, 16)}) - {self.r.choice([0, 0, 2])}]"
        out.append("    debug_log(55)")
        out.append(f"    {e}[1] = {self.value(f[2])}" if play else f"    debug_log({e}.next_key(1))")
        out.append("    debug_log(56)")

    METHODS = ["next_key", "previous_key", "has_next_key", "has_previous_key", "next_key_inclusive", "previous_key_inclusive"]

    def query(self, out, ind, var=None, limit=None, depth=0):
        r = self.r
        d = [f for f in self.fields if f[1] == "data"]
        k = r.random()
        if d and k < 0.12:
            f = r.choice(d)
            out.append(f"{ind}show_{f[2]}(Streams.{f[0]})")
            return
        if depth < 2 and k < 0.2:
            v = self.new()
            g = [f for f in self.fields if f[1] == "group"]
            if g and r.random() < 0.6:
                f = r.choice(g)
                out.append(f"{ind}for {v} in range(Streams.{f[0]}.size()):")
                n = f[3]
            else:
                n = r.randint(1, 4)
                out.append(f"{ind}for {v} in range({n}):")
            for _ in range(r.randint(1, 2)):
                self.query(out, ind + "    ", v, n, depth + 1)
            return
        g = [f for f in self.fields if f[1] == "group"]
        if g and k < 0.25:
            out.append(f"{ind}debug_log({self.num()} in Streams.{r.choice(g)[0]})")
            return
        e, t = self.stream(out, ind, var, limit)
        if e is None:
            out.append(f"{ind}debug_log(4)")
            return
        key = self.key(var)
        if k < 0.4:
            m = r.choice([*self.METHODS, "in", "in", "not in", "next_key_or_default", "previous_key_or_default"])
            self.features.add("q:" + m)
            if m in ("in", "not in"):
                out.append(f"{ind}debug_log({key} {m} {e})")
            elif m.endswith("default"):
                out.append(f"{ind}debug_log({e}.{m}({key}, {self.num()}))")
            else:
                out.append(f"{ind}debug_log({e}.{m}({key}))")
            return
        if k < 0.55:
            m = r.choice(["", "", "look", "get_next", "get_previous", "get_next_inclusive", "get_previous_inclusive"])
            self.features.add("g:" + m)
            x = f"look({e}, {key})" if m == "look" else f"{e}.{m}({key})" if m else f"{e}[{key}]"
            out.append(f"{ind}show_{t}({x})")
            return
        if k < 0.63:
            v, w = self.new(), self.new()
            self.features.add("late-use")
            out.append(f"{ind}{v} = {key}")
            out.append(f"{ind}{w} = {e}[{v}]")
            out.append(f"{ind}{v} += 1")
            out.append(f"{ind}show_{t}({w})")
            out.append(f"{ind}show_{t}({e}[{v}])")
            return
        if k < 0.7:
            v, w = self.new(), self.new()
            out.append(f"{ind}{v} = {key}")
            out.append(f"{ind}{w} = 0")
            fwd = r.random() < 0.5
            out.append(f"{ind}while {e}.has_{'next' if fwd else 'previous'}_key({v}) and {w} < 12:")
            out.append(f"{ind}    {v} = {e}.{'next' if fwd else 'previous'}_key({v})")
            out.append(f"{ind}    {w} += 1")
            out.append(f"{ind}    debug_log({v})")
            out.append(f"{ind}    show_{t}({e}[{v}])")
            self.features.add("walk")
            return
        what = r.choice(["keys", "values", "items"])
        how = r.choice(["from", "from", "from_desc", "since_previous_frame"])
        it = f"{e}.iter_{what}_{how}" + ("()" if how[0] == "s" else f"({key})")
        self.features.add(f"iter:{what}_{how}")
        if k < 0.76:
            i = self.new()
            out.append(f"{ind}{i} = {it}")
            self.features.add("next")
            for _ in range(r.randint(1, 3)):
                m = self.new()
                out.append(f"{ind}{m} = {i}.next()")
                out.append(f"{ind}debug_log({m}.is_some)")
                out.append(f"{ind}if {m}.is_some:")
                if what == "items":
                    out.append(f"{ind}    debug_log({m}.get()[0])")
                    out.append(f"{ind}    show_{t}({m}.get()[1])")
                else:
                    out.append(f"{ind}    " + (f"debug_log({m}.get())" if what == "keys" else f"show_{t}({m}.get())"))
            return
        a, b = self.new(), self.new()
        head, body = {"keys": (a, [f"debug_log({a})"]), "values": (a, [f"show_{t}({a})"]),
                      "items": (f"{a}, {b}", [f"debug_log({a})", f"show_{t}({b})"])}[what]
        if what == "keys" and r.random() < 0.5:
            body.append(f"show_{t}({e}[{a}])")
        if what == "items" and r.random() < 0.2:
            head, body = a, [f"debug_log({a}[0])", f"show_{t}({a}[1])"]
        form = r.random()
        if what != "items" and form < 0.15:
            c = self.new()
            out.append(f"{ind}for {c}, {head} in enumerate({it}):")
            body.insert(0, f"debug_log({c})")
            self.features.add("enumerate")
        elif form < 0.25 and what == "keys":
            out.append(f"{ind}for {head} in keys({e}, {key}):")
            self.features.add("generator")
        else:
            out.append(f"{ind}for {head} in {it}:")
        if form > 0.85:
            c = self.new()
            out.insert(len(out) - 1, f"{ind}{c} = 0")
            body.append(f"{c} += 1")
            body.append(f"if {c} >= {r.randint(1, 3)}:")
            body.append(r.choice(["    break", "    break", "    continue"]))
            body.append("debug_log(77)")
        if depth < 1 and r.random() < 0.25 and what != "values":
            self.features.add("nested-iteration")
            out.extend(f"{ind}    {s}" for s in body)
            self.query(out, ind + "    ", a if head[:1] != "(" and what == "keys" else None, None, depth + 1)
            return
        out.extend(f"{ind}    {s}" for s in body)

    def dump(self):
        """Everything every stream holds."""
        out = ["def dump():"]

        def all_of(e, t, ind):
            out.append(f"{ind}for k, v in {e}.iter_items_from(-1e12):")
            out.append(f"{ind}    debug_log(k)")
            out.append(f"{ind}    show_{t}(v)")
            if SIZE[t]:
                out.append(f"{ind}    show_{t}({e}[k + 0.125])")
        for n, kind, t, c, _ in self.fields:
            out.append(f"    debug_log({1000 + int(n[1:])})")
            if kind == "data":
                out.append(f"    show_{t}(Streams.{n})")
            elif kind == "stream":
                all_of(f"Streams.{n}", t, "    ")
            else:
                out.append(f"    for i in range({c}):")
                out.append("        debug_log(i)")
                all_of(f"Streams.{n}[i]", t, "        ")
        for t, at in self.extras:
            all_of(f"extra({ {'n': 'Num', 'P': 'P', 'E': 'E'}[t]}, {at})", t, "    ")
        return "\n".join(out) + "\n\n\n"

    def watch(self, trap=False):
        out = ["def watch():"]
        n = self.r.randint(2, 9)
        at = self.r.randrange(n) if trap else -1
        for i in range(n):
            self.query(out, "    ")
            if i == at:
                self.trap(out, False)
        out.append("    debug_log(2)")
        return "\n".join(out) + "\n\n\n"
