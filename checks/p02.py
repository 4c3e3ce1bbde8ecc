"""P02: every evaluator of an operation (fold kernel, reference executor, whole pipeline, script-level
constant folding, run-time code) is monitored against the others and against an independent definition."""
import json
import math
import struct

import ref
import optcheck
import script
from optcheck import LEVELS
from script import Compiled
from sonolus.backend.interpret import Interpreter
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.node import FunctionNode
from sonolus.backend.ops import Op
from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace

try:
    from sonolus.backend._opt import kernels
except ImportError:
    kernels = None

SP = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 3.5, 2.0, 3.0, -3.0, 4.0, 7.0, 10.0, 1e-5, 1e5, 0.1, 0.2, 0.3, 1e308, -1e308, 5e-324,
      float(2**53), 2**53 + 2.0, 0.49999999999999994, math.pi, math.pi / 2, 1e16, 255.0, 0.25, 0.75, 709.0, 710.0, 4503599627370497.5, 16777217.0,
      0.8106444771923819, -2**31 * 1.0, 2**31 * 1.0, 2**63 * 1.0, 1e-300]
AR = {n: e[0] for n, e in ref.PURE.items()} | {n: 2 for n in ref.NARY} | {"If": 3}
VAR = {"And", "Or", "Switch", "SwitchWithDefault", "SwitchInteger", "SwitchIntegerWithDefault"}
NAMES = {o.name: o for o in Op}
OPS = sorted((set(AR) | VAR) & set(NAMES))
FAULTS = (ZeroDivisionError, ValueError, OverflowError, AssertionError)


def val(r):
    u = r.random()
    if u < 0.35:
        return r.choice(SP)
    if u < 0.5:
        return float(r.randint(-20, 20))
    if u < 0.65:
        return r.randint(-80, 80) / 8
    if u < 0.75:
        return r.random()
    if u < 0.85:
        return r.uniform(-10, 10)
    if u < 0.95:
        return struct.unpack("<f", struct.pack("<f", r.gauss(0, 100)))[0]
    return struct.unpack("<d", struct.pack("<Q", r.getrandbits(64) & ~(0x7FF << 52) | r.randint(1, 2046) << 52))[0]


def operands(r, op):
    if op in VAR:
        if op in ("And", "Or"):
            return [r.choice([0.0, 0.0, 1.0, 2.0, -0.0, val(r)]) for _ in range(r.randint(2, 4))]
        k = r.randint(1, 4) if r.random() < 0.9 else 14
        if op.startswith("SwitchInteger"):
            n = k
        else:
            n = 2 * k
        a = [float(r.randint(-1, k + 1)) if r.random() < 0.8 else val(r)]
        for i in range(n):
            a.append(float(r.randint(0, k)) if op.startswith("Switch") and not op.startswith("SwitchInteger") and i % 2 == 0 else val(r))
        if op.endswith("Default"):
            a.append(val(r))
        return a
    n = AR[op]
    a = [val(r) for _ in range(n)]
    u = r.random()
    if op.startswith("Ease") and u < 0.8:
        a = [r.choice([r.random(), r.randint(0, 64) / 64, r.uniform(-0.2, 1.2)])]
    elif n == 2 and u < 0.1:
        a[1] = a[0]
    elif op in ("Mod", "Rem", "Power") and u < 0.4:
        a = [float(r.randint(-12, 12)), float(r.randint(-5, 5))]
    elif op in ("Judge", "JudgeSimple") and u < 0.7:
        a = [r.randint(-8, 8) / 4 for _ in range(n)]
    elif op in ("Arcsin", "Arccos") and u < 0.6:
        a = [r.uniform(-1, 1)]
    elif op in ("Clamp", "UnlerpClamped", "RemapClamped", "LerpClamped", "Unlerp", "Remap", "Lerp") and u < 0.6:
        a = [r.randint(-8, 8) / 4 for _ in range(n)]
    return a


def bits(x):
    x = float(x)
    return "nan" if x != x else struct.pack(">d", x)


def interp(op, a):
    """(value, None) or (None, reason)"""
    try:
        v = Interpreter().run(FunctionNode(NAMES[op], tuple(a)))
    except FAULTS as e:
        return None, type(e).__name__
    if isinstance(v, complex):
        return None, "complex"
    return float(v), None


def meaning(op, a):
    try:
        r = ref.select(op, a, lambda x: x) if op in ref.LAZY else ref.pure(op, a)
    except ref.NonFinite:
        return "nf"
    except ref.Fault as e:
        return "branch-cut" if "branch" in str(e) else None
    return float(r)


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 4e-15 * max(abs(a), abs(b)) + 1e-15


def one_op(ctx, r):
    op = r.choice(OPS)
    a = operands(r, op)
    v, why = interp(op, a)
    m = meaning(op, a)
    ctx.count("evaluations")
    ctx.count("operations")
    rep = {"op": op, "args": [x.hex() for x in a]}
    if m is None or m == "branch-cut":
        ctx.count("faulting-operations")
        if m is None and v is not None:
            ctx.violation(f"executor-value:{op}", f"{op}{a}: the reference executor gives {v!r} where the operation has no value", rep)
    elif m != "nf":
        if v is None:
            ctx.violation(f"executor-fault:{op}", f"{op}{a}: the reference executor faults ({why}); the operation yields {m!r}", rep)
        elif not close(v, m):
            ctx.violation(f"executor-value:{op}", f"{op}{a}: the reference executor gives {v!r}; by definition {m!r}", rep)
        ctx.distinct(hash((op, tuple(a))))
    if kernels is not None:
        try:
            k = kernels.fold(NAMES[op], a)
        except KeyError:
            return
        if k is not None:
            ctx.count("folded")
            if v is None:
                ctx.violation(f"fold-of-fault:{op}", f"{op}{a}: folded to {k!r} although executing it faults ({why})", rep)
            elif bits(k) != bits(v):
                ctx.violation(f"fold-value:{op}", f"{op}{a}: folded to {k!r} ({k.hex()}), executes to {v!r} ({v.hex()})", rep)


# -- whole pipeline: constant and half-known expression trees ----------------------------------

PLAIN = [o for o in OPS if not o.startswith(("Ease", "Judge"))]


def expr(r, depth, reads, cmemo):
    """(IR expr) random nested; leaves constants or, with reads, engine memory."""
    if depth == 0 or r.random() < 0.15:
        if reads and r.random() < 0.5:
            return IRGet(BlockPlace(4000, r.randrange(reads), 0))
        u = r.random()
        if u < 0.45:
            return IRConst(r.choice([0, 1, 2, -1, 0.5, 3, 4, 8, -2, 10]))
        if u < 0.6:
            return IRConst(r.choice([0.0, -0.0, 1.0, -1.0, 2.0]))
        return IRConst(val(r))
    u = r.random()
    if u < 0.55:
        op = r.choice(["Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power", "And", "Or", "If", "Min", "Max", "Equal", "NotEqual", "Less", "LessOr",
                       "Greater", "GreaterOr", "Not", "Negate", "Abs", "Floor", "Ceil", "Round", "Clamp", "Sign", "Trunc", "Frac"])
    else:
        op = r.choice(OPS)
    if op in VAR:
        k = r.randint(1, 3)
        if op in ("And", "Or"):
            n = k + 1
        else:
            n = 1 + (k if op.startswith("SwitchInteger") else 2 * k) + op.endswith("Default")
        args = []
        for i in range(n):
            if op in ("Switch", "SwitchWithDefault") and i % 2 == 1 and not (op.endswith("Default") and i == n - 1):
                args.append(IRConst(r.randint(-1, 3)))
            else:
                args.append(expr(r, depth - 1, reads, cmemo))
        return IRPureInstr(NAMES[op], args)
    args = [expr(r, depth - 1, reads, cmemo) for _ in range(AR[op])]
    if AR[op] == 2 and r.random() < 0.15:
        args[1] = args[0]
    return IRPureInstr(NAMES[op], args)


def pipeline(ctx, r, seed):
    reads = r.choice([0, 0, 2, 3])
    exprs = [expr(r, r.randint(1, 3), reads, None) for _ in range(12)]
    mem = {(4000, i): r.choice([val(r), float(r.randint(-3, 3)), r.choice(SP)]) for i in range(4)}
    ok = []
    for e in exprs:
        x = ref.CfgExec(BasicBlock(statements=[IRInstr(Op.DebugLog, [e])]), ref.World(1, dict(mem)))
        try:
            ev = x.run()
        except (ref.Fault, ref.Undefined, OverflowError, RecursionError):
            ctx.count("discarded-expressions")
            continue
        ok.append((e, ev[0][1]))
    if not ok:
        return
    form = r.random()

    def build(es):
        st = []
        for i, (e, _) in enumerate(es):
            if form < 0.5:
                st.append(IRInstr(Op.DebugLog, [e]))
            else:
                st.append(IRSet(BlockPlace(4003, i, 0), e))
        return BasicBlock(statements=st)

    for lname, lv in LEVELS.items():
        t = optimize_and_finalize(build(ok), lv, OptimizerConfig())
        ctx.count("pipelines")
        try:
            ev = ref.run_tree(t, ref.World(1, dict(mem)))[0]
        except (ref.Fault, ref.BadProgram, ref.Undefined) as x:
            ev = repr(x)
        vals = [e[-1] for e in ev] if isinstance(ev, list) else None
        for i, (e, want) in enumerate(ok):
            ctx.count("evaluations")
            ctx.count("expressions")
            got = vals[i] if vals is not None and i < len(vals) else None
            if got != want and not (reads and isinstance(got, float) and isinstance(want, float) and close(got, want)):
                # bisect to one expression
                try:
                    g1 = ref.run_tree(optimize_and_finalize(build([ok[i]]), lv, OptimizerConfig()), ref.World(1, dict(mem)))[0][0][-1]
                except Exception as x:
                    g1 = repr(x)
                ctx.violation(f"pipeline:{lname}", f"level {lname}: {e!r}\nmemory {mem}\nyields {got!r} (alone: {g1!r}); by definition {want!r}", {"pipeline": seed})
        if reads == 0 and vals is not None:
            ctx.count("constant-expressions", len(ok))
    for e, w in ok:
        ctx.distinct(hash((repr(e), w)))
    ctx.sample({"expression": repr(ok[0][0])[:400], "value": ok[0][1]})


# -- script level ------------------------------------------------------------------------------

EXPRS = """a + b|a - b|a * b|a / b|a // b|a % b|a ** b|-a|+a|abs(a)|a < b|a <= b|a > b|a >= b|a == b|a != b|not a|a and b|a or b|a < b < c|a if b else c
min(a, b)|max(a, b)|min(a, b, c)|max(a, b, c)|round(a)|round(a, 2)|round(a, 1)|math.floor(a)|math.ceil(a)|math.trunc(a)|math.sin(a)|math.cos(a)|math.tan(a)|math.asin(a)
math.acos(a)|math.atan(a)|math.atan2(a, b)|math.log(a)|math.log(a, b)|math.sqrt(a)|math.pi * a|int(a)|float(a)
math.sinh(a)|math.cosh(a)|math.tanh(a)|a * b + c|(a + b) * c|a - b - c|a / b / c|a ** 2|2 ** a|a % 3|a // 2|-a % b|(a - b) ** 3|lerp(a, b, c)|unlerp(a, b, c)|clamp(a, b, c)
lerp_clamped(a, b, c)|unlerp_clamped(a, b, c)|remap(a, b, c, 7, 0.5)|remap_clamped(a, b, c, 7, 0.5)|a + 0|a * 1|0 * a|a - a|a / 1|a ** 1|a ** 0|0 - a|a // 1|a % 1
sum((a, b, c))|any((a, b))|all((a, b))|a in (b, c, 2)|a not in (b, c)""".replace("\n", "|").split("|")
EASES = [f"ease_{d}_{k}(a)" for d in ("in", "out", "in_out", "out_in") for k in
         ("sine", "quad", "cubic", "quart", "quint", "expo", "circ", "back", "elastic")]
EXACT_TOL = 1e-9
HEAD = """import math
from vin import inp, con
from sonolus.script.debug import debug_log
from sonolus.script.easing import *
from sonolus.script.numtools import *
from sonolus.script.interval import lerp, lerp_clamped, unlerp, unlerp_clamped, remap, remap_clamped, clamp
"""


def sval(r):
    u = r.random()
    if u < 0.4:
        return r.choice([0, 1, -1, 2, 3, -2, 5, 7, 10])
    if u < 0.7:
        return r.choice([0.5, 1.5, 2.5, -0.5, -1.5, 0.25, -2.75, 0.1, 0.3])
    return round(r.uniform(-8, 8), 3)


def script_round(ctx, r, seed):
    env = {}
    exec(HEAD.replace("from vin import inp, con\n", ""), env)
    picks = []
    for _ in range(14):
        e = r.choice(EXPRS if r.random() < 0.8 else EASES)
        a, b, c = sval(r), sval(r), sval(r)
        if "//" in e or "round" in e:
            # documented: precision may be lower than Python's; dyadic operands keep these exact
            a, b, c = (r.randint(-64, 64) / 8 for _ in range(3))
        if e in EASES:
            a = r.choice([r.random(), r.randint(-4, 20) / 16])
        env.update(a=a, b=b, c=c)
        try:
            v = eval(e, env)
            if isinstance(v, complex):
                continue
            v = float(v)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if v != v or math.isinf(v) or abs(v) > 1e15 or ("atan2" in e and a == 0):
            continue
        kinds = [r.random() < 0.5 for _ in range(3)]
        picks.append((e, (a, b, c), v, kinds))
    if not picks:
        return
    lines, inputs = [], []
    for e, vals, _, kinds in picks:
        names = []
        for v, k in zip(vals, kinds):
            i = len(inputs)
            inputs.append(v)
            names.append(f"inp({i})" if k else f"con({i})")
        lines.append(f"    a, b, c = {names[0]}, {names[1]}, {names[2]}\n    debug_log({e})\n")
        for f in ("con",):
            names = [f"{f}({len(inputs) - 3 + i})" for i in range(3)]
            lines.append(f"    a, b, c = {names[0]}, {names[1]}, {names[2]}\n    debug_log({e})\n")
    src = HEAD + "def go():\n" + "".join(lines)
    import vin
    vin.INPUTS[:] = vin.CONS[:] = inputs
    m = script.module(ctx, src)
    try:
        c = Compiled(m.go)
        w = lambda: c.world(inputs)
        for name in ("cfg", *c.trees):
            try:
                lg = script.logs(c.direct(w()) if name == "cfg" else c.run(name, w()))
            except (ref.Fault, ref.Undefined, ref.BadProgram) as x:
                lg = [repr(x)] * (2 * len(picks))
            for i, (e, vals, v, kinds) in enumerate(picks):
                for j in range(2):
                    ctx.count("evaluations")
                    ctx.count("script-values")
                    got = lg[2 * i + j] if 2 * i + j < len(lg) else None
                    if not (isinstance(got, float) and (got == v or abs(got - v) <= EXACT_TOL * max(1, abs(v)))):
                        how = "constants" if j else "/".join("run-time" if k else "constant" for k in kinds)
                        ctx.violation(f"script:{e}", f"{e} with a, b, c = {vals} ({how}) at {name}: got {got!r}, Python gives {v!r}", {"script": seed})
        for p in picks:
            ctx.distinct(hash((p[0], p[1])))
    finally:
        script.forget(m)


def work(ctx):
    import random
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        case(ctx, seed)


def case(ctx, seed):
    import random
    r = random.Random(seed)
    for _ in range(150):
        one_op(ctx, r)
    for _ in range(3):
        pipeline(ctx, r, seed)
    if seed % 3 == 0:
        script_round(ctx, r, seed)


def replay(ctx, r):
    if "op" in r:
        class One:
            def choice(self, x):
                return r["op"] if x is OPS else x[0]
        op, a = r["op"], [float.fromhex(x) for x in r["args"]]
        global operands
        operands = lambda *_: a
        one_op(ctx, One())
    else:
        case(ctx, r.get("pipeline") or r.get("script") or r["crash"]["seed"])
