"""P03: a generated function runs in CPython and compiled; the complete logs must be the same."""
import random
import re

import pygen
import pyshrink
import ref
import script
import vin
from sonolus.script.internal.context import RuntimeChecks

# restrictions the documentation states; the generator avoids most of them
ALLOWED = ("Cannot mix tuples with other types in zip", "Temporary memory limit exceeded")
CHECKS = [RuntimeChecks.NONE, RuntimeChecks.TERMINATE, RuntimeChecks.NOTIFY_AND_TERMINATE]
LEVELS = ("minimal", "fast", "standard")


def values(r):
    return [r.choice([0, 1, 2, 3, -1, 0.5, -2.5, r.randint(-9, 9), r.randint(-9, 9)]) for _ in range(10)]


def root(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e


def gist(e):
    """An error message without what differs from run to run."""
    return re.sub(r"0x[0-9a-f]+|\d+", "N", str(e)).split("\n")[0][:50]


def judge(ctx, src, cons, vals, checks, count=False, levels=LEVELS):
    """(kind, message) of the first disagreement, or (None, None)."""
    vin.CONS[:] = cons
    m = script.module(ctx, src)
    try:
        py = [script.python_run(m.main, v) for v in vals]
        valid = [(v, p[0]) for v, p in zip(vals, py) if p[2] is None]
        if count:
            for p in py:
                if p[2] is not None:
                    ctx.count("discarded-input:" + type(p[2]).__name__)
        if not valid:
            return "invalid", None
        try:
            c = script.Compiled(m.main, checks=checks, levels=levels)
        except ref.BadProgram as e:
            return "bad-program", str(e)
        except Exception as e:
            x = root(e)
            if any(a in str(x) for a in ALLOWED):
                return "invalid", None
            return f"refused:{type(x).__name__}:{gist(x)}", f"the compiler refuses a program CPython runs: {x!r}"
        for v, log in valid:
            for lv in levels:
                try:
                    got = script.logs(c.run(lv, c.world(v)))
                except Exception as e:
                    return "fault", f"inputs {v}, level {lv}: {e!r}"
                if count:
                    ctx.count("comparisons")
                    ctx.count("events", len(log))
                if got != log:
                    i = next((i for i, (a, b) in enumerate(zip(got, log)) if a != b), min(len(got), len(log)))
                    return "diff", f"inputs {v}, level {lv}: entry {i} of the log: CPython {log[i:i + 5]}, compiled {got[i:i + 5]}"
            if count:
                ctx.count("evaluations")
                if len(log) >= 3:
                    ctx.distinct(hash(tuple(log)))
        return None, None
    finally:
        script.forget(m)


def report(ctx, kind, message, src, cons, vals, checks):
    if ctx.keys[kind]:
        ctx.violation(kind, "", None)
        return
    small = src
    try:
        def bad(s):
            try:
                with script.limited(5):
                    return judge(ctx, s, cons, vals, checks)[0] == kind
            except (Exception, script.Slow):
                return False
        small = pyshrink.shrink(src, bad, 45)
        message = judge(ctx, small, cons, vals, checks)[1] or message
    except (Exception, script.Slow) as e:
        message += f" (not shrunk: {e!r})"
    i = small.find("def kws")
    ctx.violation(kind, f"{message}\nconstants {cons}, checks {checks.name}\n{small[i:] if i > 0 else small}",
                  {"source": small, "cons": cons, "vals": vals, "checks": checks.name})


def one(ctx, seed):
    r = random.Random(f"p03{seed}")
    src, features = pygen.gen(seed, r.choice([0.5, 1, 1, 1.5]))
    cons, vals = values(r), [values(r) for _ in range(3)]
    checks = CHECKS[seed % 3]
    try:
        kind, message = judge(ctx, src, cons, vals, checks, True)
    except SyntaxError:
        ctx.count("syntax")
        return
    if kind == "invalid":
        ctx.count("invalid")
        return
    ctx.count("programs")
    for f in features:
        ctx.count("feature:" + f)
    if kind:
        report(ctx, kind, message, src, cons, vals, checks)
    elif len(src) < 2600:
        ctx.sample({"seed": seed, "source": src[src.find("def kws"):][:1500]}, 1)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        one(ctx, seed)


def replay(ctx, r):
    if "source" in r:
        kind, message = judge(ctx, r["source"], r["cons"], r["vals"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    else:
        one(ctx, (r.get("crash") or r.get("hang"))["seed"])
