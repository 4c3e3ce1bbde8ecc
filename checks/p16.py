"""P16: generated programs over the geometry and numeric helpers, in Python and compiled, against their definitions;
random helpers against their ranges; comparable floats against lexicographic order in 32-bit arithmetic."""
import itertools
import math
import random
import struct

import geogen
import ref
import script
import vin
from p03 import LEVELS, gist, root
from sonolus.script.internal.context import RuntimeChecks

CHECKS = [RuntimeChecks.NONE, RuntimeChecks.TERMINATE]


def differs(got, want):
    return not abs(float(got) - want.v) <= 100 * want.e + 1e-9 * (1 + abs(want.v)) if isinstance(got, (int, float)) else True


def compare(log, expect):
    """The first entry that is not what the definition gives."""
    for i, (e, what) in enumerate(expect):
        if i >= len(log):
            return f"the log ends after {i} of {len(expect)} entries, at {what}"
        if differs(log[i], e):
            return f"{what}: entry {i} is {log[i]}, by definition {e.v}"
    return f"{len(log) - len(expect)} entries too many" if len(log) > len(expect) else None


def judge(ctx, src, cons, inputs, expects, checks, levels=LEVELS, count=True):
    vin.CONS[:] = cons
    m = script.module(ctx, src)
    try:
        for i, (inp, ex) in enumerate(zip(inputs, expects)):
            for sim in ((False, True) if i == 0 else (False,)):
                log, _, e = script.python_run(m.main, inp, sim=sim)
                if e is not None:
                    return "python-raises", f"inputs {inp}: Python mode: {e!r} after {len(log)} entries, at {ex[min(len(log), len(ex) - 1)][1]}"
                d = compare(log, ex)
                if d:
                    return "python-value", f"Python mode: {d}"
                if count:
                    ctx.count("comparisons")
        try:
            c = script.Compiled(m.main, checks=checks, levels=levels)
        except Exception as e:
            x = root(e)
            if "Temporary memory limit exceeded" in str(x):
                return "invalid", None
            return f"refused:{type(x).__name__}:{gist(x)}", f"the compiler refuses a valid program: {x!r}"
        for inp, ex in zip(inputs, expects):
            for lv in levels:
                try:
                    got = script.logs(c.run(lv, c.world(inp)))
                except Exception as e:
                    return "fault", f"level {lv}: {e!r}"
                d = compare(got, ex)
                if d:
                    return "compiled-value", f"compiled at level {lv}, checks {checks.name}: {d}"
                if count:
                    ctx.count("comparisons")
                    ctx.count("events", len(ex))
        return None, None
    finally:
        script.forget(m)


def geometry(ctx, seed):
    G = geogen.Gen(seed)
    cons, inputs = G.inputs()
    src = G.source()
    checks = CHECKS[seed % 2]
    kind, message = judge(ctx, src, cons, inputs, G.expect, checks)
    if kind == "invalid":
        ctx.count("invalid")
        return
    ctx.count("programs")
    for k in G.used:
        ctx.count("helper:" + k.replace("\n", " "))
    if kind:
        ctx.violation(kind, f"{message}\nseed {seed}, inputs {inputs[0]}\n{src[src.find('def main'):]}", {"geometry": seed})
        return
    ctx.count("evaluations", 3)
    for e in G.expect:
        ctx.distinct(hash(tuple(round(v.v, 6) for v, _ in e)))
    ctx.sample({"seed": seed, "source": src[src.find("def main"):][:1200]}, 1)


# --- random helpers

RAND = '''import random
from sonolus.script.array import Array
from sonolus.script.containers import VarArray
from sonolus.script.debug import debug_log
from vin import con, inp

def main():
    for _ in range({n}):
{body}
    debug_log(424242)
'''


class Extreme(ref.State):
    """Draws at the ends of their range."""
    pick = None

    def random(self, op, args):
        lo, hi = (ref.canon(v) for v in args)
        n = self.draws.get(0, 0)
        self.draws[0] = n + 1
        u = self.pick[n % len(self.pick)]
        if op == "RandomInteger":
            if hi <= lo:
                raise ref.Fault("empty range")
            return float(min(hi - 1, lo + math.floor(u * (hi - lo))))
        return lo + u * (hi - lo)


def run_with(c, lv, inputs, seed, pick=None):
    t = c.trees[lv]
    w = c.world(inputs, seed=seed)
    if pick is None:
        return script.logs(ref.run_tree(t, w, 2_000_000)[0])
    old = ref.State
    cls = type("E", (Extreme,), {"pick": pick})
    ref.State = cls
    try:
        return script.logs(ref.run_tree(t, w, 2_000_000)[0])
    finally:
        ref.State = old


def randoms(ctx, seed):
    r = random.Random(f"rnd{seed}")
    n = 120
    vals = []

    def num(v):
        k = r.choice(["lit", "con", "inp"])
        if k == "lit":
            return f"({v!r})"
        vals.append(v)
        return f"{k}({len(vals) - 1})"
    kind = r.choice(["randrange1", "randrange2", "randrange3", "randrange3", "randint", "choice", "shuffle", "uniform", "random", "vararray"])
    width, ok, members = 1, None, None
    if kind == "randrange1":
        k = r.randint(1, 5)
        body, members = f"debug_log(random.randrange({num(k)}))", [(v,) for v in range(k)]
    elif kind == "randrange2":
        a = r.randint(-6, 6)
        k = r.randint(1, 5)
        body, members = f"debug_log(random.randrange({num(a)}, {num(a + k)}))", [(v,) for v in range(a, a + k)]
    elif kind == "randrange3":
        a, st, k = r.randint(-6, 6), r.choice([-3, -2, -1, 1, 2, 3, 4]), r.randint(1, 5)
        b = a + st * k - r.choice([0, *range(1, abs(st))]) * (1 if st > 0 else -1)
        body, members = f"debug_log(random.randrange({num(a)}, {num(b)}, {num(st)}))", [(v,) for v in range(a, b, st)]
    elif kind == "randint":
        a = r.randint(-6, 6)
        k = r.randint(0, 4)
        body, members = f"debug_log(random.randint({num(a)}, {num(a + k)}))", [(v,) for v in range(a, a + k + 1)]
    elif kind == "choice":
        es = [r.randint(-9, 9) for _ in range(r.randint(1, 5))]
        body, members = f"debug_log(random.choice(Array({', '.join(num(e) for e in es)})))", sorted({(e,) for e in es})
    elif kind in ("shuffle", "vararray"):
        k = r.choice([1, 2, 3, 3])
        es = r.sample(range(-9, 9), k)
        width = k
        if kind == "shuffle":
            body = f"a = Array({', '.join(num(e) for e in es)})\nrandom.shuffle(a)\nfor x in a:\n    debug_log(x)"
        else:
            body = f"a = VarArray[int, {r.randint(k, 6)}].new()\n" + "".join(f"a.append({num(e)})\n" for e in es) + "random.shuffle(a)\nfor x in a:\n    debug_log(x)"
        members = sorted(itertools.permutations(es))
        n = 200
    elif kind == "uniform":
        a, b = sorted(r.uniform(-5, 5) for _ in range(2))
        b = max(b, a + 0.5)
        body = f"debug_log(random.uniform({num(a)}, {num(b)}))"
        ok = (a, b)
    else:
        body, ok = "debug_log(random.random())", (0, 1)
    src = RAND.format(n=n, body="\n".join("        " + x for x in body.split("\n")))
    vin.CONS[:] = vals
    m = script.module(ctx, src)
    try:
        runs = []
        random.seed(seed)
        log, _, e = script.python_run(m.main, vals)
        runs.append(("Python mode", log, e, False))
        try:
            c = script.Compiled(m.main, checks=CHECKS[seed % 2], levels=("minimal", "standard"))
        except Exception as e2:
            x = root(e2)
            ctx.violation(f"refused:{gist(x)}", f"the compiler refuses {body}: {x!r}", {"randoms": seed})
            return
        for lv in ("minimal", "standard"):
            for pick in (None, (0.0,), (1 - 2**-53,), (0.0, 1 - 2**-53)):
                try:
                    runs.append((f"compiled at {lv}, draws {pick}", run_with(c, lv, vals, seed, pick), None, pick is not None))
                except Exception as e2:
                    runs.append((f"compiled at {lv}, draws {pick}", [], e2, True))
        for label, log, e, extreme in runs:
            if e is not None or len(log) != n * width + 1:
                return ctx.violation("random-fails", f"{label}: {body}: {e!r}, {len(log)} entries", {"randoms": seed})
            groups = [tuple(log[i:i + width]) for i in range(0, n * width, width)]
            if members is not None:
                odd = [x for x in groups if x not in [tuple(map(float, q)) for q in members]]
                missing = [q for q in members if tuple(map(float, q)) not in groups] if not extreme else []
                if odd or missing:
                    return ctx.violation("random-range", f"{label}: {body} (numbers {vals}) gives {odd[:3]}, never {missing[:3]}; may give {members[:8]}", {"randoms": seed})
            else:
                lo, hi = ok
                if any(not lo - 1e-9 <= v <= hi + 1e-9 or (kind == "random" and v >= 1) for v, in groups):
                    return ctx.violation("random-range", f"{label}: {body}: values {min(groups)}..{max(groups)} leave {ok}", {"randoms": seed})
                if not extreme and (min(groups)[0] > lo + (hi - lo) * 0.25 or max(groups)[0] < hi - (hi - lo) * 0.25 or len(set(groups)) < n / 2):
                    return ctx.violation("random-range", f"{label}: {body}: {n} values lie in {min(groups)}..{max(groups)} of {ok}", {"randoms": seed})
            ctx.count("random-runs")
            ctx.count("comparisons")
        ctx.count("helper:random." + kind)
    finally:
        script.forget(m)


# --- numbers for ordering

def f32(v):
    if v is ref.UNDEF or v != v:
        return v
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


class Tree32(ref.Tree):
    """Executes with every value rounded to 32 bits, as the engine does."""

    def comp(self, node, a):
        f = super().comp(node, a)
        return lambda: f32(f())


ORDER = '''from sonolus.script.debug import debug_log
from sonolus.script.numtools import make_comparable_float, quantize_to_step
from vin import con, inp

def main():
    debug_log(make_comparable_float({pairs}))
'''


def ordering(ctx, seed):
    r = random.Random(f"ord{seed}")
    k = r.randint(1, 4)
    room = 2**31 - 1
    sizes = []
    for i in range(k):
        top = room if r.random() < 0.2 and i == k - 1 else max(1, int(room ** r.uniform(0.1, 0.8)))
        s = r.choice([top, r.randint(1, top), min(top, 2 ** r.randint(0, 24)), min(top, 2 ** r.randint(0, 16) + 1)])
        s = max(1, min(s, 2**24 if r.random() < 0.8 else 2**30))
        sizes.append(s)
        room //= s
    r.shuffle(sizes)
    # the numbers themselves must be exact in 32 bits
    def exact(s):
        while f32(float(s)) != s:
            s -= 1
        return s
    sizes = [exact(s) for s in sizes]
    modes = [r.choice(["con", "con", "inp"]) for _ in range(k)]
    vals = [float(s) for s in sizes]
    pairs = ", ".join(f"(inp({i}), {modes[i]}({i + k}))" for i in range(k))
    rows = set()
    for _ in range(14):
        row = [r.choice([0, s - 1, r.randrange(s), r.randrange(s), s // 2]) for s in sizes]
        rows.add(tuple(row))
        j = r.randrange(k)
        near = list(row)  # its neighbour in the order
        near[-1] += 1
        if near[-1] < sizes[-1]:
            rows.add(tuple(near))
        if sizes[j] > 1:
            rows.add(tuple(row[:j]) + (min(row[j] + 1, sizes[j] - 1),) + tuple(0 for _ in row[j + 1:]))
            rows.add(tuple(row[:j]) + (row[j],) + tuple(s - 1 for s in sizes[j + 1:]))
    rows = sorted(q for q in rows if all(f32(float(v)) == v for v in q))
    src = ORDER.format(pairs=pairs)
    cons = [0.0] * k + vals
    vin.CONS[:] = cons
    m = script.module(ctx, src)
    try:
        try:
            c = script.Compiled(m.main, checks=RuntimeChecks.NONE, levels=("minimal", "standard"))
        except Exception as e:
            x = root(e)
            ctx.violation(f"refused:{gist(x)}", f"the compiler refuses sizes {sizes}: {x!r}", {"ordering": seed})
            return
        t32 = {}
        for lv, t in c.trees.items():
            t32[lv] = Tree32(t.root)
        for label in ("Python mode", *[(lv, w) for lv in t32 for w in (64, 32)]):
            out = []
            for row in rows:
                inp = [float(v) for v in row] + vals
                if label == "Python mode":
                    log, _, e = script.python_run(m.main, inp)
                    if e is not None:
                        return ctx.violation("order-raises", f"sizes {sizes}, values {row}: {e!r}", {"ordering": seed})
                    out.append(log[0])
                else:
                    lv, w = label
                    t = t32[lv] if w == 32 else c.trees[lv]
                    out.append(script.logs(ref.run_tree(t, c.world(inp), 100000)[0])[0])
            for a, b, p, q in zip(out, out[1:], rows, rows[1:]):
                if not a < b or f32(a) != a or f32(b) != b:
                    return ctx.violation("order", f"{label}: sizes {sizes} ({modes}): {p} gives {a!r} and {q} gives {b!r}, which do not compare alike in 32 bits", {"ordering": seed})
            ctx.count("orderings", len(rows))
            ctx.count("comparisons")
        ctx.count("helper:make_comparable_float")
    finally:
        script.forget(m)


def work(ctx):
    for i, seed in enumerate(ctx.cases()):
        ctx.mark({"seed": seed})
        if i % 8 == 6:
            randoms(ctx, seed)
        elif i % 8 == 7:
            ordering(ctx, seed)
        else:
            geometry(ctx, seed)


def replay(ctx, r):
    for k, f in (("geometry", geometry), ("randoms", randoms), ("ordering", ordering)):
        if k in r:
            return f(ctx, r[k])
    s = (r.get("crash") or r.get("hang"))["seed"]
    for f in (geometry, randoms, ordering):
        f(ctx, s)
