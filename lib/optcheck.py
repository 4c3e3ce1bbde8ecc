"""Common parts of the optimiser checks: running a program both ways and comparing event logs."""
import ref
import cfgser
from sonolus.backend.optimize import FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig, optimize_and_finalize

LEVELS = {"minimal": MINIMAL_PASSES, "fast": FAST_PASSES, "standard": STANDARD_PASSES}
DISCARD = (ref.Fault, ref.Undefined, ref.StepLimit)


def reference(entry, world, limit=60000):
    """(events, executor) or (None, reason)."""
    x = ref.CfgExec(entry, world, limit)
    try:
        return x.run(), x
    except DISCARD as e:
        return None, type(e).__name__
    except RecursionError:
        return None, "Recursion"


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"event {i}: expected {a[i:i + 3]}, got {b[i:i + 3]} (lengths {len(a)} and {len(b)})"


def run_opt(tree, world, ev, limit=600000):
    """None if the tree shows exactly ev, else a description."""
    try:
        e2, _ = ref.run_tree(tree, world, limit)
    except ref.Fault as e:
        return f"fault: {e}"
    except ref.Undefined:
        return "an uninitialised temporary reaches an observable effect"
    except ref.StepLimit:
        return "does not finish"
    except ref._Break:
        return "break out of the program"
    if e2 != ev:
        return first_diff(ev, e2)
    return None


def verdict(d, world_args, level):
    """Failure kind of a serialised program at a level (None: none), for shrinking and replay."""
    entry, mode, cb = cfgser.load(d)
    w = ref.World(**world_args)
    ev, _ = reference(entry, w)
    if ev is None:
        return None, None
    try:
        t = ref.Tree(optimize_and_finalize(entry, LEVELS[level], OptimizerConfig(mode, cb)))
    except ref.BadProgram as e:
        return "bad-program", str(e)
    except Exception as e:
        return f"raised-{type(e).__name__}", repr(e)[:500]
    m = run_opt(t, w, ev)
    return ("diff", m) if m else (None, None)


def report(ctx, kind, level, d, world_args, message, where=""):
    """Shrinks and records a disagreement."""
    key = f"{kind}:{level}"
    if ctx.keys[key]:
        ctx.violation(key, "", None)
        return
    small = d
    try:
        if d is not None and verdict(d, world_args, level)[0] == kind:
            import time
            t1 = time.time()
            small = cfgser.shrink(d, lambda c: time.time() - t1 < 40 and verdict(c, world_args, level)[0] == kind, 2000)
            message = verdict(small, world_args, level)[1] or message
    except Exception as e:
        message += f" (not shrunk: {e!r})"
    txt = ""
    try:
        txt = cfgser.text(small)[:2500]
    except Exception:
        pass
    ctx.violation(key, f"level {level} {where}: {message}\nworld {world_args}\n{txt}",
                  {"program": small, "world": world_args, "level": level})
