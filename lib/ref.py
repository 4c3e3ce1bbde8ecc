"""Independent reference semantics: pure operations, CFG execution, engine-tree execution.

Written from the documented meaning of the operations; imports nothing of sonolus except what is
handed in. Operations are named by strings so that the same table serves CFGs, engine trees and
decoded packages. Both executors record the same kind of observable events:

  ("S", block, index, value)   a write to engine memory outside temporary memory
  (op, args...)                an effectful engine call
  ("ret", value)               the value a callback returns

Undefined (a temporary read before any write) is the value UNDEF: it propagates through
operations, and using it for anything observable raises Undefined.
"""
import hashlib
import math
import random
import struct

TEMP = 10000
ROM = 3000


class Fault(Exception):
    """The execution does something the engine does not define (division by zero, bad index...)."""


class Undefined(Exception):
    """An uninitialised temporary influences something observable."""


class StepLimit(Exception):
    pass


class BadProgram(Exception):
    """The program is not one the engine can run at all (wrong arity, unknown op, bad address)."""


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class NonFinite(Fault):
    pass


def _fin(x):
    if isinstance(x, complex):
        raise Fault("complex")
    x = float(x)
    if STRICT[0] and (math.isinf(x) or math.isnan(x)):
        raise NonFinite("non-finite")
    return x


# While an emitted tree runs, non-finite intermediate results are values (the direct execution it is
# compared with was finite, so any that matters shows up as a difference).
STRICT = [True]


def _b(x):
    return 1.0 if x else 0.0


def _div(a, b):
    if b == 0:
        raise Fault("division by zero")
    return _fin(a / b)


def _mod(a, b):
    if b == 0:
        raise Fault("mod by zero")
    return _fin(a % b)


def _rem(a, b):
    if b == 0:
        raise Fault("rem by zero")
    return math.copysign(math.fmod(abs(a), abs(b)), a)


def _pow(a, b):
    try:
        r = a**b
    except (ZeroDivisionError, OverflowError) as e:
        raise Fault(str(e)) from None
    return _fin(r)


def _m1(fn):
    def f(x):
        try:
            return _fin(fn(x))
        except (ValueError, OverflowError) as e:
            raise Fault(str(e)) from None

    return f


def _sgn(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else x)


def _round(x):
    # half to even
    f = math.floor(x)
    d = x - f
    if d < 0.5:
        return float(f)
    if d > 0.5:
        return float(f + 1)
    return float(f if f % 2 == 0 else f + 1)


def _max(a, b):
    return b if b > a else a


def _min(a, b):
    return b if b < a else a


def _clamp(x, a, b):
    return _max(a, _min(b, x))


def _judge(d, p0, p1, g0, g1, o0, o1):
    for v, lo, hi in ((1.0, p0, p1), (2.0, g0, g1), (3.0, o0, o1)):
        if lo <= d <= hi:
            return v
    return 0.0


def _atan2(y, x):
    # the sign of a zero is not part of the contract, so these points have no defined value
    if y == 0 and x <= 0:
        raise Fault("atan2 on the branch cut")
    return math.atan2(y, x)


def _frac(x):
    r = x % 1.0
    return r


PURE = {
    "Abs": (1, abs), "Negate": (1, lambda x: -x), "Not": (1, lambda x: _b(x == 0)),
    "Floor": (1, lambda x: float(math.floor(x))), "Ceil": (1, lambda x: float(math.ceil(x))),
    "Round": (1, _round), "Trunc": (1, lambda x: float(math.trunc(x))), "Frac": (1, _frac), "Sign": (1, _sgn),
    "Sin": (1, _m1(math.sin)), "Cos": (1, _m1(math.cos)), "Tan": (1, _m1(math.tan)),
    "Sinh": (1, _m1(math.sinh)), "Cosh": (1, _m1(math.cosh)), "Tanh": (1, _m1(math.tanh)),
    "Arcsin": (1, _m1(math.asin)), "Arccos": (1, _m1(math.acos)), "Arctan": (1, _m1(math.atan)),
    "Arctan2": (2, _atan2), "Log": (1, _m1(math.log)),
    "Degree": (1, lambda x: _fin(x * (180.0 / math.pi))), "Radian": (1, lambda x: _fin(x * (math.pi / 180.0))),
    "Equal": (2, lambda a, b: _b(a == b)), "NotEqual": (2, lambda a, b: _b(a != b)),
    "Less": (2, lambda a, b: _b(a < b)), "LessOr": (2, lambda a, b: _b(a <= b)),
    "Greater": (2, lambda a, b: _b(a > b)), "GreaterOr": (2, lambda a, b: _b(a >= b)),
    "Max": (2, _max), "Min": (2, _min), "Clamp": (3, _clamp),
    "Lerp": (3, lambda a, b, s: _fin(a + (b - a) * s)),
    "LerpClamped": (3, lambda a, b, s: _fin(a + (b - a) * _clamp(s, 0.0, 1.0))),
    "Unlerp": (3, lambda lo, hi, v: _div(v - lo, hi - lo)),
    "UnlerpClamped": (3, lambda lo, hi, v: _clamp(_div(v - lo, hi - lo), 0.0, 1.0)),
    "Remap": (5, lambda a, b, c, d, v: _fin(c + _div((d - c) * (v - a), b - a))),
    "RemapClamped": (5, lambda a, b, c, d, v: _fin(c + (d - c) * _clamp(_div(v - a, b - a), 0.0, 1.0))),
    "Judge": (8, lambda s, t, *w: _judge(s - t, *w)),
    "JudgeSimple": (5, lambda s, t, p, g, o: _judge(s - t, -p, p, -g, g, -o, o)),
}
NARY = {"Add": lambda a, b: _fin(a + b), "Subtract": lambda a, b: _fin(a - b), "Multiply": lambda a, b: _fin(a * b),
        "Divide": _div, "Mod": _mod, "Rem": _rem, "Power": _pow}


def _easings():
    s, c, pi = math.sin, math.cos, math.pi
    c1 = 1.70158
    c3, c2 = c1 + 1, c1 * 1.525
    P = lambda x, n: x**n
    E = {}

    def two(first, second):
        return lambda x: first(x) if x < 0.5 else second(x)

    for name, n, k in (("Quad", 2, 2), ("Cubic", 3, 4), ("Quart", 4, 8), ("Quint", 5, 16)):
        E["EaseIn" + name] = lambda x, n=n: P(x, n)
        E["EaseOut" + name] = lambda x, n=n: 1 - P(1 - x, n)
        E["EaseInOut" + name] = two(lambda x, n=n, k=k: k * P(x, n), lambda x, n=n: 1 - P(-2 * x + 2, n) / 2)
        E["EaseOutIn" + name] = two(lambda x, n=n: (1 - P(1 - 2 * x, n)) / 2, lambda x, n=n: P(2 * x - 1, n) / 2 + 0.5)
    E["EaseInSine"] = lambda x: 1 - c((x * pi) / 2)
    E["EaseOutSine"] = lambda x: s((x * pi) / 2)
    E["EaseInOutSine"] = lambda x: -(c(pi * x) - 1) / 2
    E["EaseOutInSine"] = two(lambda x: s(pi * x) / 2, lambda x: 1 - s(pi * x) / 2)
    E["EaseInCirc"] = lambda x: 1 - math.sqrt(1 - P(x, 2))
    E["EaseOutCirc"] = lambda x: math.sqrt(1 - P(x - 1, 2))
    E["EaseInOutCirc"] = two(lambda x: (1 - math.sqrt(1 - P(2 * x, 2))) / 2,
                             lambda x: (math.sqrt(1 - P(2 * x - 2, 2)) + 1) / 2)
    E["EaseOutInCirc"] = two(lambda x: math.sqrt(1 - P(2 * x - 1, 2)) / 2,
                             lambda x: (1 - math.sqrt(1 - P(2 * x - 1, 2))) / 2 + 0.5)
    E["EaseInExpo"] = lambda x: 0.0 if x == 0 else 2 ** (10 * x - 10)
    E["EaseOutExpo"] = lambda x: 1.0 if x == 1 else 1 - 2 ** (-10 * x)
    E["EaseInOutExpo"] = lambda x: x if x in (0, 1) else (2 ** (20 * x - 10) / 2 if x < 0.5 else (2 - 2 ** (-20 * x + 10)) / 2)
    E["EaseOutInExpo"] = lambda x: x if x in (0, 1) else ((1 - 2 ** (-20 * x)) / 2 if x < 0.5 else 2 ** (20 * x - 20) / 2 + 0.5)
    E["EaseInBack"] = lambda x: c3 * P(x, 3) - c1 * P(x, 2)
    E["EaseOutBack"] = lambda x: 1 + c3 * P(x - 1, 3) + c1 * P(x - 1, 2)
    E["EaseInOutBack"] = two(lambda x: (P(2 * x, 2) * ((c2 + 1) * 2 * x - c2)) / 2,
                             lambda x: (P(2 * x - 2, 2) * ((c2 + 1) * (2 * x - 2) + c2) + 2) / 2)
    E["EaseOutInBack"] = two(lambda x: (1 + c3 * P(2 * x - 1, 3) + c1 * P(2 * x - 1, 2)) / 2,
                             lambda x: (c3 * P(2 * x - 1, 3) - c1 * P(2 * x - 1, 2)) / 2 + 0.5)
    c4, c5 = 2 * pi / 3, 2 * pi / 4.5
    E["EaseInElastic"] = lambda x: x if x in (0, 1) else -(2 ** (10 * x - 10)) * s((x * 10 - 10.75) * c4)
    E["EaseOutElastic"] = lambda x: x if x in (0, 1) else 2 ** (-10 * x) * s((x * 10 - 0.75) * c4) + 1
    E["EaseInOutElastic"] = lambda x: x if x in (0, 1) else (
        -(2 ** (20 * x - 10) * s((20 * x - 11.125) * c5)) / 2 if x < 0.5
        else (2 ** (-20 * x + 10) * s((20 * x - 11.125) * c5)) / 2 + 1)
    E["EaseOutInElastic"] = lambda x: x if x in (0, 1) else (
        (2 ** (-20 * x) * s((20 * x - 0.75) * c4)) / 2 + 0.5 if x < 0.5
        else (-(2 ** (10 * (2 * x - 1) - 10)) * s((20 * x - 20.75) * c4)) / 2 + 0.5)
    return E


EASE = _easings()
for _n, _f in EASE.items():
    PURE[_n] = (1, lambda x, f=_f: float(f(_clamp(x, 0.0, 1.0))))

# Pure queries of engine tables: any deterministic function of their arguments.
QUERIES = {"BeatToBPM": 1, "BeatToStartingBeat": 1, "BeatToStartingTime": 1, "BeatToTime": 1, "HasEffectClip": 1,
           "HasParticleEffect": 1, "HasSkinSprite": 1, "StreamGetNextKey": 2, "StreamGetPreviousKey": 2,
           "StreamGetValue": 2, "StreamHas": 2, "TimeToScaledTime": 1, "TimeToStartingScaledTime": 1,
           "TimeToStartingTime": 1, "TimeToTimeScale": 1}
RANDOMS = {"Random": 2, "RandomInteger": 2}
LAZY = {"If", "And", "Or", "Switch", "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault"}
# Effectful engine calls and their arity (None: any)
EFFECTS = {"AddLifeScheduled": 2, "DebugLog": 1, "DebugPause": 0, "DestroyParticleEffect": 1, "ExportValue": 2,
           "Draw": 11, "DrawCurvedB": 14, "DrawCurvedBT": 16, "DrawCurvedL": 14, "DrawCurvedLR": 16, "DrawCurvedR": 14,
           "DrawCurvedT": 14, "MoveParticleEffect": 9, "Paint": None, "Play": 2, "PlayLooped": 1,
           "PlayLoopedScheduled": 2, "PlayScheduled": 3, "Print": None, "Spawn": None, "SpawnParticleEffect": 11,
           "StopLooped": 1, "StopLoopedScheduled": 2, "StreamSet": 3}
RETURNS = {"PlayLooped", "PlayLoopedScheduled", "SpawnParticleEffect"}


def hash01(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=7).digest()
    return int.from_bytes(h, "big") / float(1 << 56)


def canon(x):
    """Value as compared: floats, with both zeros alike and all NaNs alike."""
    x = float(x)
    if x != x:
        return "nan"
    return 0.0 if x == 0 else x


def query_value(op, args):
    return float(math.floor(hash01(op, tuple(canon(a) for a in args)) * 64)) / 4 - 4


class World:
    """Initial memory, query results and random draws: the environment both executions share."""

    def __init__(self, seed=0, mem=None, rom=None, gen=None):
        self.seed = seed
        self.init = dict(mem or {})
        self.rom = rom
        self.gen = gen
        self.query = query_value

    def initial(self, block, index):
        if block == ROM:
            if self.rom is not None:
                return self.rom[index] if 0 <= index < len(self.rom) else 0.0
            if index < 3:
                return (math.nan, math.inf, -math.inf)[index]
        v = self.init.get((block, index))
        if v is None:
            if self.gen:
                v = self.gen(block, index)
            else:
                v = float(math.floor(hash01(self.seed, block, index) * 41)) / 4 - 5
            self.init[(block, index)] = v
        return v


class State:
    def __init__(self, world, limit=200000):
        self.w = world
        self.mem = {}
        self.events = []
        self.draws = {}
        self.steps = limit
        self.reads = 0
        self.temp_lo = None
        self.temp_hi = None

    def tick(self, n=1):
        self.steps -= n
        if self.steps < 0:
            raise StepLimit

    def read(self, block, index):
        self.reads += 1
        v = self.mem.get((block, index))
        if v is None:
            if block == TEMP:
                return UNDEF
            return self.w.initial(block, index)
        return v

    def write(self, block, index, value):
        if value is UNDEF and block != TEMP:
            raise Undefined
        self.mem[(block, index)] = value
        if block != TEMP:
            self.events.append(("S", block, index, canon(value)))
        return value

    def random(self, op, args):
        a = tuple(canon(x) for x in args)
        k = (op, a)
        n = self.draws.get(k, 0)
        self.draws[k] = n + 1
        u = hash01(self.w.seed, op, a, n)
        lo, hi = a
        if op == "RandomInteger":
            if hi <= lo:
                raise Fault("empty range")
            return float(math.floor(lo + u * (hi - lo)))
        return lo + u * (hi - lo)

    def effect(self, op, args):
        if any(a is UNDEF for a in args):
            raise Undefined
        self.events.append((op, *(canon(a) for a in args)))
        if op in RETURNS:
            return float(1 + math.floor(hash01("r", op, len(self.events)) * 50))
        return 0.0


def addr(v, what="index"):
    if v is UNDEF:
        raise Undefined
    if v != v or math.isinf(v) or v != math.floor(v):
        raise Fault(f"non-integer {what} {v}")
    return int(v)


def chk_index(block, i):
    if i < 0 or i > 65535:
        raise Fault(f"index {i} out of range in block {block}")
    return i


def pure(op, args):
    """Value of a strict pure operation on values (floats or UNDEF)."""
    for a in args:
        if a is UNDEF:
            return UNDEF
    f = NARY.get(op)
    if f is not None:
        if not args:
            return 0.0
        acc = args[0]
        for a in args[1:]:
            acc = _nary(f, acc, a)
        return acc
    e = PURE.get(op)
    if e is not None:
        n, fn = e
        if len(args) != n:
            raise BadProgram(f"{op} with {len(args)} arguments")
        try:
            return fn(*args)
        except (OverflowError, ValueError, Fault) as ex:
            if not STRICT[0] and any(a - a != 0 for a in args):
                return math.nan
            if isinstance(ex, Fault):
                raise
            raise Fault(f"{op}: {ex}") from None
    raise BadProgram(f"unknown operation {op}")


def _nary(f, a, b):
    try:
        return f(a, b)
    except (OverflowError, ValueError, Fault) as ex:
        if not STRICT[0] and (a - a != 0 or b - b != 0):
            return math.nan
        if isinstance(ex, Fault):
            raise
        raise Fault(str(ex)) from None


def select(op, args, ev):
    """Lazy selects, shared by both executors; ev evaluates an operand."""
    if op == "And":
        r = 0.0
        for a in args:
            r = ev(a)
            if r is UNDEF:
                return UNDEF
            if r == 0:
                break
        return r
    if op == "Or":
        r = 0.0
        for a in args:
            r = ev(a)
            if r is UNDEF:
                return UNDEF
            if r != 0:
                break
        return r
    t = ev(args[0])
    if op == "If":
        if len(args) != 3:
            raise BadProgram("If arity")
        if t is UNDEF:
            return UNDEF
        return ev(args[1] if t != 0 else args[2])
    if t is UNDEF:
        return UNDEF
    if op in ("Switch", "SwitchWithDefault"):
        d = op == "SwitchWithDefault"
        rest = args[1:-1] if d else args[1:]
        if len(rest) % 2 or (d and len(args) < 2):
            raise BadProgram(f"{op} arity")
        for i in range(0, len(rest), 2):
            if ev(rest[i]) == t:
                return ev(rest[i + 1])
        return ev(args[-1]) if d else 0.0
    d = op == "SwitchIntegerWithDefault"
    rest = args[1:-1] if d else args[1:]
    if 0 <= t < len(rest) and t == math.floor(t):
        return ev(rest[int(t)])
    return ev(args[-1]) if d else 0.0


# ---------------------------------------------------------------------------------------------
# CFG execution (duck-typed on BasicBlock/IR classes by class name)
# ---------------------------------------------------------------------------------------------


_ACCESS = {"Get": 2, "GetPointed": 3, "GetShifted": 4, "Set": 3, "SetPointed": 4, "SetShifted": 5}


class CfgExec:
    """Direct execution of a non-SSA CFG."""

    def __init__(self, entry, world, limit=200000, on_block=None):
        self.s = State(world, limit)
        self.entry = entry
        self.temps = {}
        self.on_block = on_block
        self.blocks_seen = 0
        self.arms = set()

    # places -----------------------------------------------------------------
    def place(self, p):
        b = p.block
        cn = type(b).__name__
        i = p.index
        if type(i) is int:
            idx = i
        elif type(i).__name__ == "BlockPlace":
            idx = addr(self.load(i))
        elif type(i) is float:
            idx = addr(i)
        else:
            idx = addr(self.ev(i))
        idx += p.offset
        if cn == "TempBlock":
            if not 0 <= idx < max(1, b.size):
                raise Fault(f"temp index {idx} out of {b.name}[{b.size}]")
            return ("t", b.name), idx
        if isinstance(b, int):
            blk = int(b)
        elif cn == "BlockPlace":
            blk = addr(self.load(b), "block")
        else:
            blk = addr(self.ev(b), "block")
        return blk, chk_index(blk, idx)

    def load(self, p):
        if type(p).__name__ == "SSAPlace":
            return self.temps.get((p.name, p.num), UNDEF)
        b, i = self.place(p)
        if type(b) is tuple:
            return self.temps.get((b[1], i), UNDEF)
        return self.s.read(b, i)

    def store(self, p, v):
        b, i = self.place(p)
        if type(b) is tuple:
            self.temps[(b[1], i)] = v
        else:
            self.s.write(b, i, v)
        return v

    # expressions ---------------------------------------------------------------
    def ev(self, e):
        cn = type(e).__name__
        if cn == "IRConst":
            return float(e.value)
        if cn == "IRGet":
            return self.load(e.place)
        if cn in ("IRPureInstr", "IRInstr"):
            op = e.op.name
            self.s.tick()
            if op in LAZY:
                return select(op, e.args, self.ev)
            args = [self.ev(a) for a in e.args]
            return self.call(op, args)
        if cn == "IRSet":
            # value before or after address: no effects inside either, so the order is immaterial
            v = self.ev(e.value)
            return self.store(e.place, v)
        if cn in ("BlockPlace", "SSAPlace"):
            return self.load(e)
        if isinstance(e, (int, float)):
            return float(e)
        raise BadProgram(f"cannot execute {cn}")

    def call(self, op, args):
        if op in EFFECTS:
            return self.s.effect(op, args)
        if op in RANDOMS:
            if any(a is UNDEF for a in args):
                return UNDEF
            return self.s.random(op, args)
        if op in QUERIES:
            if any(a is UNDEF for a in args):
                return UNDEF
            return self.s.w.query(op, args)
        if op == "Break":
            if args[1] is UNDEF:
                raise Undefined
            raise _Return(canon(args[1]))
        if op in _ACCESS:
            if len(args) != _ACCESS[op]:
                raise BadProgram(f"{op} with {len(args)} arguments")
            return self.access(op, args)
        if op in _RMW:
            return self.rmw(op, args)
        return pure(op, args)

    def rmw(self, op, args):
        pre, mode, fn, n = _RMW[op]
        if len(args) != n + (fn is not None):
            raise BadProgram(f"{op} with {len(args)} arguments")
        old = self.access("Get" + mode, args[:n])
        w = args[n] if fn else 0.0
        if old is UNDEF or w is UNDEF:
            raise Undefined
        new = _nary(fn, old, w) if fn else _fin(old + (1.0 if pre.startswith("Inc") else -1.0))
        self.access("Set" + mode, [*args[:n], new])
        return new if fn or "Post" in pre else old

    def access(self, op, args):
        """Reads and writes spelled as operations (real memory only)."""
        n = 3 if op.endswith("Pointed") else 4 if op.endswith("Shifted") else 2
        ad = args[:n]
        if any(a is UNDEF for a in ad):
            raise Undefined
        blk = addr(ad[0], "block")
        if n == 3:
            i, o = addr(ad[1]), addr(ad[2])
            tb = self.s.read(blk, chk_index(blk, i))
            ti = self.s.read(blk, chk_index(blk, i + 1))
            if tb is UNDEF or ti is UNDEF:
                raise Undefined
            blk, i = addr(tb, "block"), addr(ti) + o
        else:
            i = addr(_lin(*ad[1:])) if n == 4 else addr(ad[1])
        i = chk_index(blk, i)
        if op.startswith("Get"):
            return self.s.read(blk, i)
        self.s.write(blk, i, args[-1])
        return args[-1]

    def run(self):
        b = self.entry
        s = self.s
        try:
            while True:
                s.tick()
                self.blocks_seen += 1
                if self.on_block:
                    self.on_block(b)
                for st in b.statements:
                    self.ev(st)
                out = {e.cond: e.dst for e in b.outgoing}
                if not out:
                    break
                if len(out) == 1 and None in out:
                    b = out[None]
                    continue
                t = self.ev(b.test)
                if t is UNDEF:
                    raise Undefined
                nxt = None
                for c, d in out.items():
                    if c is not None and c == t:
                        nxt = d
                        break
                else:
                    nxt = out.get(None)
                    if nxt is None:
                        break
                b = nxt
        except _Return as r:
            s.events.append(("ret", r.value))
        return s.events


class _Return(Exception):
    def __init__(self, value):
        self.value = value


# ---------------------------------------------------------------------------------------------
# Engine-tree execution: nodes compiled to closures (shared nodes compiled once)
# ---------------------------------------------------------------------------------------------


class _Break(Exception):
    def __init__(self, n, v):
        self.n = n
        self.v = v


_FUSED = {"Add": NARY["Add"], "Subtract": NARY["Subtract"], "Multiply": NARY["Multiply"], "Divide": NARY["Divide"],
          "Mod": NARY["Mod"], "Rem": NARY["Rem"], "Power": NARY["Power"]}


_RMW = {}
for _m, _n in (("", 2), ("Pointed", 3), ("Shifted", 4)):
    for _k, _f in _FUSED.items():
        _RMW["Set" + _k + _m] = ("Set", _m, _f, _n)
    for _k in ("IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"):
        _RMW[_k + _m] = (_k, _m, None, _n)


class Tree:
    """A compiled engine tree; run(state) executes it."""

    def __init__(self, root, temp_check=None):
        self.s = None
        self.root = root
        self.memo = {}
        self.keep = []
        self.ops = {}
        self.temp_check = temp_check
        self.fn = self.comp_root(root)

    def run(self, world, limit=400000):
        self.s = State(world, limit)
        v = self.fn()
        if not isinstance(v, tuple):
            return self.s.events
        return self.s.events

    # -- compile without recursion on Python's stack where trees are deep
    def comp_root(self, root):
        stack = [(root, False)]
        memo = self.memo
        while stack:
            n, done = stack.pop()
            k = id(n)
            if k in memo:
                continue
            if not hasattr(n, "func"):
                if isinstance(n, bool) or not isinstance(n, (int, float)):
                    raise BadProgram(f"leaf {n!r}")
                c = float(n)
                memo[k] = lambda c=c: c
                self.keep.append(n)
                continue
            if done:
                memo[k] = self.comp(n, [memo[id(a)] for a in n.args])
                self.keep.append(n)
            else:
                stack.append((n, True))
                for a in n.args:
                    if id(a) not in memo:
                        stack.append((a, False))
        return memo[id(root)]

    def arity(self, op, a, n):
        if len(a) != n:
            raise BadProgram(f"{op} with {len(a)} arguments (expects {n})")

    def comp(self, node, a):
        op = getattr(node.func, "name", None) or str(node.func)
        self.ops[op] = self.ops.get(op, 0) + 1
        T = self
        if op == "Execute":
            def f():
                r = 0.0
                for x in a:
                    r = x()
                return r
            return f
        if op == "Execute0":
            def f():
                for x in a:
                    x()
                return 0.0
            return f
        if op in LAZY:
            if op == "If":
                self.arity(op, a, 3)
                t, y, n = a
                def f():
                    T.s.tick()
                    v = t()
                    if v is UNDEF:
                        return UNDEF
                    return y() if v != 0 else n()
                return f
            def f():
                T.s.tick()
                return select(op, a, _call0)
            return f
        if op == "Block":
            self.arity(op, a, 1)
            x = a[0]
            def f():
                try:
                    return x()
                except _Break as e:
                    if e.n > 1:
                        e.n -= 1
                        raise
                    return e.v
            return f
        if op == "Break":
            self.arity(op, a, 2)
            def f():
                n = addr(a[0]())
                v = a[1]()
                if v is UNDEF:
                    raise Undefined
                raise _Break(n, ("ret", v))
            return f
        if op == "JumpLoop":
            def f():
                i = 0
                n = len(a)
                while 0 <= i < n:
                    T.s.tick()
                    if i == n - 1:
                        return a[i]()
                    v = a[i]()
                    if v is UNDEF:
                        raise Undefined
                    i = int(v)
                return 0.0
            return f
        if op == "While":
            self.arity(op, a, 2)
            def f():
                while a[0]() != 0:
                    T.s.tick()
                    a[1]()
                return 0.0
            return f
        if op == "DoWhile":
            self.arity(op, a, 2)
            def f():
                while True:
                    T.s.tick()
                    a[0]()
                    if a[1]() == 0:
                        return 0.0
            return f
        if op == "Get":
            self.arity(op, a, 2)
            b, i = a
            return lambda: T.get(b(), i())
        if op == "GetShifted":
            self.arity(op, a, 4)
            b, o, i, st = a
            return lambda: T.get(b(), _lin(o(), i(), st()))
        if op == "GetPointed":
            self.arity(op, a, 3)
            b, i, o = a
            return lambda: T.get(*T.ptr(b(), i(), o()))
        if op == "Set":
            self.arity(op, a, 3)
            b, i, v = a
            return lambda: T.set(b(), i(), v())
        if op == "SetShifted":
            self.arity(op, a, 5)
            b, o, i, st, v = a
            return lambda: T.set(b(), _lin(o(), i(), st()), v())
        if op == "SetPointed":
            self.arity(op, a, 4)
            b, i, o, v = a
            return lambda: T.set(*T.ptr(b(), i(), o()), v())
        for pre in ("Set", "IncrementPost", "IncrementPre", "DecrementPost", "DecrementPre"):
            if op.startswith(pre) and op not in EFFECTS:
                return self.comp_rmw(op, pre, a)
        if op == "Copy":
            self.arity(op, a, 5)
            def f():
                sb, si, db, di, n = (addr(x()) for x in a)
                if n < 0:
                    raise Fault("negative count")
                vs = [T.get(sb, si + k) for k in range(n)]
                for k, v in enumerate(vs):
                    T.set(db, di + k, v)
                return 0.0
            return f
        if op in EFFECTS:
            n = EFFECTS[op]
            if n is not None and op in ("DebugLog", "DebugPause", "ExportValue", "StreamSet"):
                self.arity(op, a, n)
            def f():
                T.s.tick()
                return T.s.effect(op, [x() for x in a])
            return f
        if op in RANDOMS:
            self.arity(op, a, 2)
            def f():
                args = [x() for x in a]
                if any(x is UNDEF for x in args):
                    return UNDEF
                return T.s.random(op, args)
            return f
        if op in QUERIES:
            self.arity(op, a, QUERIES[op])
            def f():
                args = [x() for x in a]
                if any(x is UNDEF for x in args):
                    return UNDEF
                return T.s.w.query(op, args)
            return f
        nf = NARY.get(op)
        if nf is not None:
            if len(a) == 2:
                x, y = a
                def f():
                    u, v = x(), y()
                    if u is UNDEF or v is UNDEF:
                        return UNDEF
                    return _nary(nf, u, v)
                return f
            return lambda: pure(op, [x() for x in a])
        if op in PURE:
            self.arity(op, a, PURE[op][0])
            return lambda: pure(op, [x() for x in a])
        raise BadProgram(f"unknown operation {op}")

    def comp_rmw(self, op, pre, a):
        T = self
        body = op[len(pre):]
        mode = ""
        for m in ("Pointed", "Shifted"):
            if body.endswith(m):
                mode, body = m, body[: -len(m)]
        nad = {"": 2, "Pointed": 3, "Shifted": 4}[mode]
        if pre == "Set":
            if body not in _FUSED:
                raise BadProgram(f"unknown operation {op}")
            self.arity(op, a, nad + 1)
            fn = _FUSED[body]
        else:
            if body:
                raise BadProgram(f"unknown operation {op}")
            self.arity(op, a, nad)
        ad, val = a[:nad], a[nad:]
        delta = 1.0 if pre.startswith("Inc") else -1.0
        newval = "Post" in pre

        def f():
            xs = [x() for x in ad]
            w = val[0]() if val else None
            if mode == "":
                b, i = xs
            elif mode == "Shifted":
                b, i = xs[0], _lin(*xs[1:])
            else:
                b, i = T.ptr(*xs)
            old = T.get(b, i)
            if old is UNDEF or w is UNDEF:
                return T.set(b, i, UNDEF)
            if val:
                return T.set(b, i, _nary(fn, old, w))
            new = _fin(old + delta)
            T.set(b, i, new)
            return new if newval else old

        return f

    # memory ---------------------------------------------------------------------
    def ptr(self, b, i, o):
        if b is UNDEF or i is UNDEF or o is UNDEF:
            return UNDEF, UNDEF
        b, i, o = addr(b, "block"), addr(i), addr(o)
        tb = self.get(b, i)
        ti = self.get(b, i + 1)
        if tb is UNDEF or ti is UNDEF:
            return UNDEF, UNDEF
        return tb, ti + o

    def get(self, b, i):
        if b is UNDEF or i is UNDEF:
            return UNDEF
        b = addr(b, "block")
        i = chk_index(b, addr(i))
        s = self.s
        s.tick()
        if b == TEMP and i > 4095:
            raise Fault(f"temporary memory index {i}")
        return s.read(b, i)

    def set(self, b, i, v):
        b = addr(b, "block")
        i = chk_index(b, addr(i))
        s = self.s
        s.tick()
        if b == TEMP:
            if i > 4095:
                raise Fault(f"temporary memory index {i}")
            if self.temp_check:
                self.temp_check(i)
        return s.write(b, i, v)


def _lin(o, i, st):
    if o is UNDEF or i is UNDEF or st is UNDEF:
        return UNDEF
    return o + i * st


def _call0(x):
    return x()


def run_tree(tree, world, limit=400000):
    """Events of the tree; the value carried out by the top-level Break becomes a ("ret", v) event."""
    t = tree if isinstance(tree, Tree) else Tree(tree)
    t.s = State(world, limit)
    STRICT[0] = False
    try:
        v = t.fn()
    finally:
        STRICT[0] = True
    if isinstance(v, tuple) and v[0] == "ret":
        t.s.events.append(("ret", canon(v[1])))
    return t.s.events, t
