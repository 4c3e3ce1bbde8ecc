"""P06: programs full of checks that may fail; the compiled callback must stop exactly where Python raises.

The reference for functions is the same source in CPython, for collections an independent list/set/dict model as well."""
import ast
import contextlib
import io
import random

import adtgen
import p03
import pygen
import pyshrink
import ref
import script
import vin
from sonolus.script.internal.context import RuntimeChecks

LEVELS = p03.LEVELS
END = 424242.0
STATIC = ("Array index out of range", "Tuple index out of range", "Array index must be an integer")


def own(e):
    """Is this exception one of the checks the property is about (rather than arithmetic the engine does not check)?"""
    return isinstance(e, (AssertionError, IndexError, KeyError, RuntimeError, StopIteration)) or isinstance(e, ValueError) and "ndex" in str(e)


class NoChecks(ast.NodeTransformer):
    """The source as it should behave with checks off: asserts are gone."""

    def visit_Assert(self, n):
        return ast.Pass()

    def visit_Expr(self, n):
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("assert_true", "assert_false"):
            return ast.Pass()
        return n


class Notes(io.StringIO):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def write(self, s):
        if s.startswith("[NOTIFY] "):
            self.log.append(("notify", s[9:].strip()))
        return len(s)


def effects_in_checks(tree):
    """Asserts whose condition has effects or may fail itself: evaluated or not with checks off is left open."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Assert):
            t = n.test
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("assert_true", "assert_false"):
            t = n
        else:
            continue
        if any(isinstance(x, (ast.NamedExpr, ast.GeneratorExp)) or isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Constant, ast.UnaryOp)) or isinstance(x, ast.Call) and x is not t and not (isinstance(x.func, ast.Name) and x.func.id in ("inp", "con", "int", "abs"))
               or isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add) and "P(" in ast.unparse(x) for x in ast.walk(t)):
            return True
    return False


def observed(events, messages):
    """The log with notifications decoded; (log, notified at the end)."""
    out = []
    i = 0
    es = [e for e in events if e[0] in ("DebugLog", "DebugPause")]
    while i < len(es):
        if i + 1 < len(es) and es[i][0] == "DebugLog" and es[i + 1][0] == "DebugPause":
            out.append(("notify", messages.get(es[i][1], es[i][1])))
            i += 2
        elif es[i][0] == "DebugPause":
            out.append(("pause",))
            i += 1
        else:
            out.append(es[i][1])
            i += 1
    return out


def python(fn, v):
    """(log with notifications, exception)"""
    class Both(list):
        pass
    log = []
    with contextlib.redirect_stdout(Notes(log)):
        vin.INPUTS[:] = list(v)
        tok = script.debug_log_callback.set(lambda x: (log.append(ref.canon(float(getattr(x, "data", x)))), 0)[1])
        try:
            fn()
            return log, None
        except Exception as e:
            return log, e
        finally:
            script.debug_log_callback.reset(tok)


def judge(ctx, src, model, cons, vals, checks, count=False):
    """src: source of the program; model: source over the model or None."""
    vin.CONS[:] = cons
    mods = []

    def load(s):
        m = script.module(ctx, s)
        mods.append(m)
        return m
    try:
        lib = load(src)
        refmod = lib
        if checks == RuntimeChecks.NONE and model is None:
            t = ast.parse(src)
            if effects_in_checks(t):
                return "invalid", None
            refmod = load(ast.unparse(ast.fix_missing_locations(NoChecks().visit(t))))
        mod = load(model) if model else None
        cases = []
        for v in vals:
            log, e = python(refmod.main, v)
            if mod:
                mlog, me = python(mod.main, v)
                if me is not None and not own(me):
                    continue
                if count:
                    ctx.count("comparisons")
                if (me is None) != (e is None) or mlog != log:
                    return "python-model", f"inputs {v}: in Python the library gives {e!r} after {log[-5:]} ({len(log)}), the model {me!r} after {mlog[-5:]} ({len(mlog)})"
            if e is not None and not own(e):
                if count:
                    ctx.count("discarded-input:" + type(e).__name__)
                continue
            hard = e is not None and (isinstance(e, RuntimeError) or isinstance(e, AssertionError) and model is None)
            if checks == RuntimeChecks.NONE and e is not None and not hard:
                if count:
                    ctx.count("unchecked-input")
                continue
            cases.append((v, log, e))
        if not cases:
            return "invalid", None
        try:
            c = script.Compiled(lib.main, checks=checks, levels=LEVELS)
        except ref.BadProgram as e:
            return "bad-program", str(e)
        except Exception as e:
            x = p03.root(e)
            if any(a in str(x) for a in p03.ALLOWED + STATIC):
                return "invalid", None
            return f"refused:{type(x).__name__}:{p03.gist(x)}", f"the compiler refuses the program: {x!r}"
        # a message comes with the places it was raised from
        messages = {float(k): s.split("\n")[-1] for s, k in c.project.debug_str_mappings.items()}
        for v, log, e in cases:
            want = list(log) if checks == RuntimeChecks.NOTIFY_AND_TERMINATE else [x for x in log if not isinstance(x, tuple)]
            for lv in LEVELS:
                try:
                    got = observed(c.run(lv, c.world(v)), messages)
                except Exception as x:
                    return "fault", f"inputs {v}, level {lv}: {x!r}"
                if count:
                    ctx.count("comparisons")
                    ctx.count("events", len(got))
                    ctx.count("stopped" if e is not None else "completed")
                tail = None
                if e is not None and checks == RuntimeChecks.NOTIFY_AND_TERMINATE and str(e) != "Terminated":
                    if len(got) != len(want) + 1 or not isinstance(got[-1], tuple) or got[-1][0] != "notify":
                        return "notify", f"inputs {v}, level {lv}: Python raises {e!r} after {len(want)} entries {want[-4:]}; the callback logs {got[max(0, len(want) - 4):len(want) + 4]}, which is not one message more"
                    tail = got.pop()[1]
                    if not isinstance(tail, str):
                        return "message-code", f"inputs {v}, level {lv}: the notification {tail!r} is not the code of a message"
                    if str(e)[:1] == "m" and str(e)[1:].isdigit() and tail != str(e):
                        return "message", f"inputs {v}, level {lv}: Python raises {e!r}, the notification says {tail!r}"
                if got != want:
                    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    return "diff", f"inputs {v}, level {lv}, checks {checks.name}: Python {'raises ' + repr(e) if e is not None else 'completes'} with {len(want)} entries; entry {i}: Python {want[i:i + 5]}, callback {got[i:i + 5]}"
            if count:
                ctx.count("evaluations")
                ctx.count("raise:" + (type(e).__name__ if e is not None else "none"))
                if len(log) >= 2:
                    ctx.distinct(hash((tuple(log), repr(e))))
        return None, None
    finally:
        for m in mods:
            script.forget(m)


def case(seed):
    r = random.Random(f"p06{seed}")
    cons, vals = p03.values(r), [p03.values(r) for _ in range(4)]
    checks = p03.CHECKS[r.choice([0, 1, 1, 2, 2])]
    if r.random() < 0.5:
        src, features = pygen.gen(seed, r.choice([0.3, 0.6, 1]), r.choice([0.15, 0.25, 0.4]))
        return src, None, features, cons, vals, checks
    body, features = adtgen.gen(seed, r.choice([0.5, 1]), r.choice([0.06, 0.12, 0.2]))
    return body, body, features, cons, vals, checks


def sources(body, model):
    return (adtgen.source(body, False), adtgen.source(body, True)) if model else (body, None)


def one(ctx, seed):
    body, model, features, cons, vals, checks = case(seed)
    try:
        kind, message = judge(ctx, *sources(body, model), cons, vals, checks, True)
    except SyntaxError:
        ctx.count("syntax")
        return
    if kind == "invalid":
        ctx.count("invalid")
        return
    ctx.count("programs")
    ctx.count("checks:" + checks.name)
    for f in features:
        if f in ("assert", "require", "error", "assert_true", "notify", "ifexp-error", "index", "next") or "." in f:
            ctx.count("site:" + f.split(".")[0])
    if not kind:
        if len(body) < 2600:
            ctx.sample({"seed": seed, "source": body[-1200:]}, 1)
        return
    if ctx.keys[kind]:
        ctx.violation(kind, "", None)
        return
    small = body
    try:
        def bad(s):
            try:
                with script.limited(5):
                    return judge(ctx, *sources(s, model), cons, vals, checks)[0] == kind
            except (Exception, script.Slow):
                return False
        small = pyshrink.shrink(body, bad, 45)
        message = judge(ctx, *sources(small, model), cons, vals, checks)[1] or message
    except (Exception, script.Slow) as e:
        message += f" (not shrunk: {e!r})"
    i = small.find("def kws")
    ctx.violation(kind, f"seed {seed}: {message}\nconstants {cons}, checks {checks.name}\n{small[i:] if i > 0 else small}",
                  {"body": small, "model": bool(model), "cons": cons, "vals": vals, "checks": checks.name})


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        one(ctx, seed)


def replay(ctx, r):
    if "body" in r:
        kind, message = judge(ctx, *sources(r["body"], r["model"]), r["cons"], r["vals"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    else:
        one(ctx, (r.get("crash") or r.get("hang"))["seed"])
