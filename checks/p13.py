"""P13: memory safety of the native optimiser, observed by AddressSanitizer and UndefinedBehaviorSanitizer,
by an allocator that fails, fills and counts, and by the exit status of processes with an ordinary stack."""
import ctypes
import gc
import os
import random
import signal
import subprocess
import sys
import traceback

if __name__ == "__main__":  # the child of a "deep" case
    _v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    sys.path[:0] = [sys.argv[1], os.path.join(_v, "lib"), os.path.join(_v, "checks")]
    import shim  # noqa: F401

import cfggen
import malform
import nodes
from optcheck import LEVELS, OptimizerConfig, optimize_and_finalize
from sonolus.backend.optimize import cfg_to_engine_node, run_passes

try:
    from sonolus.backend._opt import ir as _ir
except ImportError:
    _ir = None
try:
    from sonolus.backend._opt import kernels as _k
except ImportError:
    _k = None
from sonolus.backend.ops import Op

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = list(LEVELS)
# `lower` consumes SSA form, so it never follows `unssa`
SEQUENCES = [["cfg_cleanup"], ["cfg_cleanup", "ssa"], ["cfg_cleanup", "ssa", "unssa"], ["cfg_cleanup", "ssa", "sccp", "gvn", "dce", "lower", "bump"],
             ["cfg_cleanup", "ssa", "midend", "unssa", "packing"], ["cfg_cleanup", "ssa", "midend_standard", "ifconv", "lower", "packing"], ["cfg_cleanup", "try_bump"],
             ["cfg_cleanup", "ssa", "licm", "gvn", "rewrite_switch", "dce", "unssa", "packing"], ["bump"], ["packing"], ["cfg_cleanup", "dominators"],
             ["cfg_cleanup", "ssa", "midend", "lower", "packing"], ["cfg_cleanup", "ssa", "gvn", "licm", "ifconv", "lower", "bump"]]
# most elements a kind is given under a sanitizer (some passes are quadratic in them)
CAPS = {"loops": 1500, "sequence": 700, "many-phis": 900, "temps": 3000, "steps": 6000, "switch": 4000, "compare-chain": 2500, "ladder": 8000, "line": 20000, "nested": 5000,
        "negated": 9000, "nary-nested": 3000, "calls": 9000, "pointers": 9000, "operands": 4000, "chain": 12000, "arrays": 1500, "constants": 20000, "places": 20000}


class Alloc:
    """The counters of lib/verif_alloc.c."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            self.v = {n: ctypes.c_long.in_dll(lib, "verif_" + n) for n in ("calls", "fail_at", "fail_for", "failed", "live", "bytes")}
            self.fill_ = ctypes.c_int.in_dll(lib, "verif_fill")
        except ValueError:
            self.v = None

    def __getattr__(self, n):
        return self.v[n].value

    def fail(self, at, n=1):
        self.v["calls"].value = 0
        self.v["failed"].value = 0
        self.v["fail_for"].value = n
        self.v["fail_at"].value = at

    def off(self):
        self.v["fail_at"].value = -1

    def fill(self, b):
        self.fill_.value = b


def origin(x):
    """File and function an exception comes from."""
    tb = traceback.extract_tb(x.__traceback__)
    return (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ("", "")


def improper(x, tree):
    """Why an exception is not an ordinary refusal (None: it is)."""
    f, fn = origin(x)
    if isinstance(x, SystemError):
        return f"SystemError: {x}"
    if isinstance(x, IndexError) and f.endswith(".pyx"):
        # under the bounds checks of the instrumented build: an access out of bounds in a release build
        return f"out-of-range access in {f}:{fn}: {x}"
    return None


class Sentinel:
    """A few programs whose trees must stay what they were when the process was fresh."""

    def __init__(self):
        self.ps = [cfggen.gen(7000 + i, 0.6) for i in range(4)]
        self.want = [self.tree(i) for i in range(12)]

    def tree(self, i):
        p = self.ps[i % 4]
        return nodes_key(optimize_and_finalize(p.entry, LEVELS[LEVEL[i // 4]], OptimizerConfig(p.mode, p.callback)))

    def broken(self, i):
        i %= 12
        try:
            return None if self.tree(i) == self.want[i] else "a legal program compiled afterwards gives another tree"
        except Exception as x:
            return f"a legal program is refused afterwards: {x!r}"


def nodes_key(t):
    """A flat, hashable form of an engine tree."""
    out, stack = [], [t]
    while stack:
        n = stack.pop()
        if isinstance(n, tuple):
            out.append((n[0], len(n[1])))
            stack.extend(n[1])
        else:
            out.append(repr(n))
    return hash(tuple(out))


def routes(e, m, cb, r):
    """Calls to make on a program."""
    lv = LEVELS[r.choice(LEVEL)]
    cfg = OptimizerConfig(m, cb)
    k = r.random()
    if k < 0.5 or _ir is None:
        return "fused", lambda: optimize_and_finalize(e, lv, cfg)
    if k < 0.7:
        return "passes", lambda: cfg_to_engine_node(run_passes(e, lv, cfg))
    if k < 0.8:
        return "unallocated", lambda: run_passes(run_passes(e, lv, cfg, allocate=False), lv, cfg)
    seq = r.choice(SEQUENCES)
    return "phases", lambda: _ir.debug_run(e, m, cb, seq)


class Case:
    def __init__(self, ctx):
        self.ctx = ctx
        self.alloc = Alloc()
        self.sentinel = Sentinel()
        gc.collect()
        self.base = self.alloc.live if self.alloc.v else 0

    def settled(self, what):
        """Everything the optimiser allocated must be gone once its results are."""
        if not self.alloc.v:
            return
        gc.collect()
        d = self.alloc.live - self.base
        self.ctx.count("leak-checks")
        if d > 0:
            # kept for good by a cache, or lost: the same work again tells
            self.base = self.alloc.live
            self.grown = getattr(self, "grown", 0) + 1
            return d
        self.base = self.alloc.live

    def run(self, c):
        getattr(self, c["kind"].replace("-", "_"))(c, random.Random(f"{c['kind']}{c['seed']}"))

    def attempt(self, f, c, legal):
        ctx = self.ctx
        try:
            x = f()
            ctx.count("accepted")
            return x
        except Exception as x:
            ctx.count("refused:" + type(x).__name__)
            ctx.distinct(hash((type(x).__name__, origin(x), str(x)[:40])))
            w = improper(x, ctx.tree)
            if w:
                ctx.violation("improper-exception", f"case {c}: {w}\n{traceback.format_exc()[-2500:]}", c)
            elif legal and not isinstance(x, legal):
                ctx.violation("legal-refused", f"case {c}: a legal program is refused: {traceback.format_exc()[-2500:]}", c)
        return None

    def malformed(self, c, r):
        ctx = self.ctx
        ctx.count("malformed")
        for _ in range(3):
            try:
                e, m, cb, kinds = malform.malformed(c["seed"])
            except (TypeError, RuntimeError, AttributeError):
                ctx.count("not-generated")
                return
            for k in kinds:
                ctx.count("edit:" + k)
            name, f = routes(e, m, cb, r)
            ctx.count("route:" + name)
            self.attempt(f, c, None)
        self.after(c)

    def after(self, c):
        b = self.sentinel.broken(c["seed"])
        self.ctx.count("sentinels")
        if b:
            self.ctx.violation("unusable", f"case {c}: {b}", c)

    def valid(self, c, r):
        """Legal programs: what is emitted must not depend on what fresh memory contains, and nothing may be left."""
        ctx = self.ctx
        p = cfggen.gen(c["seed"], r.choice([0.3, 0.6, 1.0, 2.0, 4.0]))
        ctx.count("programs")
        lv = LEVELS[r.choice(LEVEL)]
        cfg = OptimizerConfig(p.mode, p.callback)
        keys = {}
        for b in (0, 255, 127, 1):
            if self.alloc.v:
                self.alloc.fill(b)
            t = self.attempt(lambda: optimize_and_finalize(p.entry, lv, cfg), c, (ValueError,))
            if t is None:
                break
            keys[b] = nodes_key(t)
            ctx.count("filled-compilations")
        if self.alloc.v:
            self.alloc.fill(-1)
        if len(set(keys.values())) > 1:
            ctx.violation("uninitialised", f"case {c}: the emitted program depends on the contents of fresh memory", c)
        if keys:
            ctx.distinct(next(iter(keys.values())))
        t = None
        _, f = routes(p.entry, p.mode, p.callback, r)
        self.attempt(f, c, (ValueError,))
        f = None
        # the same again must not leave more behind
        self.settled("valid")
        left = []
        for _ in range(3):
            self.attempt(lambda: optimize_and_finalize(p.entry, lv, cfg), c, (ValueError,))
            left.append(self.settled("valid") or 0)
        if len(left) == 3 and all(left):
            ctx.violation("leak", f"case {c}: compiling the same program again leaves {left} more allocations behind each time", c)

    def fault(self, c, r):
        """Every n-th allocation of the optimiser fails: an ordinary MemoryError, nothing lost, and usable afterwards."""
        ctx = self.ctx
        if not self.alloc.v:
            return
        p = cfggen.gen(c["seed"], r.choice([0.3, 0.6, 1.0]))
        name, f = routes(p.entry, p.mode, p.callback, r)
        ctx.count("route:" + name)
        self.alloc.fail(-1)
        self.attempt(f, c, (ValueError,))
        n = self.alloc.calls
        self.alloc.off()
        ctx.count("allocations", n)
        if not n:
            return
        for at in sorted({0, n - 1, *(r.randrange(n) for _ in range(c.get("points", 14)))}):
            self.alloc.fail(at, r.choice([1, 1, 1, 3, 10**9]))
            try:
                f()
                out = "unnoticed"
            except MemoryError:
                out = "MemoryError"
            except Exception as x:
                out = type(x).__name__
                w = improper(x, ctx.tree)
                if w:
                    ctx.violation("improper-exception", f"case {c} allocation {at} of {n} fails: {w}\n{traceback.format_exc()[-2000:]}", c)
                elif not isinstance(x, ValueError):
                    ctx.count("other-exceptions")
            finally:
                failed = self.alloc.failed
                self.alloc.off()
            if failed:
                ctx.count("faults")
                ctx.count("fault:" + out)
                ctx.distinct(hash(("fault", at, n, out)))
        f = None
        self.after(c)
        left = []
        _, f = routes(p.entry, p.mode, p.callback, random.Random(f"{c['kind']}{c['seed']}x"))
        self.settled("fault")
        at = r.randrange(n)
        for _ in range(3):
            self.alloc.fail(at)
            try:
                f()
            except (MemoryError, ValueError):
                pass
            except Exception:
                pass
            self.alloc.off()
            left.append(self.settled("fault") or 0)
        if all(left):
            ctx.violation("leak", f"case {c}: a compilation whose allocation {at} fails leaves {left} allocations behind each time", c)

    def extreme(self, c, r):
        ctx = self.ctx
        ctx.count("extremes")
        ctx.count("extreme:" + c["shape"])
        e = malform.extreme(c["shape"], c["n"], r)
        name, f = routes(e, None, None, r)
        if name == "phases" and c["n"] > 300:
            lv = LEVELS[r.choice(LEVEL)]
            f = lambda: optimize_and_finalize(e, lv, OptimizerConfig())
        t = self.attempt(f, c, (ValueError, MemoryError, OverflowError, RecursionError))
        ctx.distinct(hash((c["shape"], c["n"], t is None)))
        self.after(c)

    def kernels(self, c, r):
        ctx = self.ctx
        if _k is None or not hasattr(_k, "fold"):
            return
        for _ in range(300):
            op = r.choice(list(Op))
            args = [r.choice(malform.NUMBERS[:26] + [r.uniform(-9, 9)]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 15, 16, 17, 18, 40, 200]))]
            try:
                _k.fold(op, args)
                ctx.count("folds")
            except Exception as x:
                w = improper(x, ctx.tree)
                if w or not isinstance(x, (TypeError, ValueError, OverflowError, MemoryError, KeyError)):
                    ctx.violation("improper-exception", f"fold({op!r}, {args!r}): {x!r}", c)

    def deep(self, c, r):
        """In a process of its own, on a stack of the usual size, with the release build."""
        ctx = self.ctx
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "PYTHONMALLOC", "VERIF_ASLIMIT")}
        p = subprocess.run(["/bin/bash", "-c", LIMITS, "bash", sys.executable, os.path.abspath(__file__), release_tree(), c["shape"], str(c["n"]), c["level"], c["route"], str(c["limit"])], env=env, capture_output=True,
                           text=True, timeout=300)
        out = p.stdout.strip().splitlines()[-1:] or [""]
        ctx.count("deep")
        if p.returncode < 0:
            if -p.returncode in (signal.SIGKILL, signal.SIGXCPU):
                ctx.count("deep:out-of-time")
                return
            ctx.violation("crash-deep", f"case {c}: the process died with signal {-p.returncode}\n{p.stderr[-1500:]}", c)
        elif p.returncode or not out[0].startswith("done "):
            ctx.violation("deep-unusable", f"case {c}: exit {p.returncode}: {p.stdout[-500:]} {p.stderr[-1500:]}", c)
        else:
            ctx.count("deep:" + out[0].split()[1])
            ctx.distinct(hash(("deep", c["shape"], c["n"] // 1000, out[0])))


LIMITS = 'ulimit -S -s 8192; ulimit -c 0 -v 4194304; ulimit -S -t 60; exec "$@"'


def release_tree():
    import buildrepo

    return buildrepo.tree("release")


DEEP = ["nested", "negated", "nary-nested", "calls", "pointers", "cycle", "operands", "steps", "line", "loops"]


def plan(ctx, seed, i):
    """The case of a seed."""
    r = random.Random(f"p13-{seed}")
    if i < (2 if ctx.quick else 6) or (i % 200 == 100):
        return {"kind": "deep", "seed": seed, "shape": r.choice(DEEP[:6] if i % 2 == 0 else DEEP), "n": int(10 ** r.uniform(3, 5.5)), "level": r.choice(LEVEL), "route": r.choice("op"),
                "limit": r.choice([1000, 10000, 10**6])}
    k = r.random()
    if k < 0.5:
        return {"kind": "malformed", "seed": seed}
    if k < 0.68:
        return {"kind": "valid", "seed": seed}
    if k < 0.86:
        return {"kind": "fault", "seed": seed, "points": 14 if ctx.quick else 40}
    if k < 0.95:
        s = r.choice(malform.KINDS)
        cap = CAPS.get(s, 2000) * (1 if ctx.quick else 2)
        return {"kind": "extreme", "seed": seed, "shape": s, "n": max(3, int(cap ** r.uniform(0.2, 1.0)))}
    return {"kind": "kernels", "seed": seed}


def work(ctx):
    cs = Case(ctx)
    ctx.count("build:" + ("checked" if "-asan-" in ctx.tree else "release-directives"))
    for i, seed in enumerate(ctx.cases()):
        c = plan(ctx, seed, i)
        ctx.mark(c)
        ctx.count("evaluations")
        cs.run(c)
        ctx.sample(c)


def replay(ctx, r):
    if "report" in r:
        print(r["report"])
        return
    c = r.get("crash") or r.get("hang") or r
    Case(ctx).run(c)


def child(argv):
    tree, shape, n, level, route, limit = argv
    if int(limit) > sys.getrecursionlimit():
        sys.setrecursionlimit(int(limit))
    r = random.Random(n)
    if shape == "cycle":
        e = malform.extreme("nested", 1, r)
        x = malform.IRPureInstr(Op.Add, [malform.IRConst(1), malform.IRConst(2)])
        x.args = [r.choice([x, malform.IRPureInstr(Op.Negate, [x])]), malform.IRConst(1)]
        e.statements = [malform.put(0, x)]
    else:
        e = malform.extreme(shape, int(n), r)
    f = (lambda: optimize_and_finalize(e, LEVELS[level], OptimizerConfig())) if route == "o" else (lambda: run_passes(e, LEVELS[level], OptimizerConfig()))
    try:
        f()
        out = "accepted"
    except Exception as x:
        out = type(x).__name__
    s = malform.extreme("chain", 20, random.Random(1))
    optimize_and_finalize(s, LEVELS[level], OptimizerConfig())
    print("done", out, flush=True)
    os._exit(0)


if __name__ == "__main__":
    child(sys.argv[1:])
