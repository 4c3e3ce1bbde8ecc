"""P10: every route from a program to an engine tree must give the same tree; export and re-import
must be faithful; emitted trees must be ones the engine can hold."""
import io
import math
import random
import contextlib

import cfggen
import cfgser
import nodes
import optcheck
import ref
from optcheck import LEVELS
from sonolus.backend.blocks import PlayBlock
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.ops import Op
from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes
from sonolus.backend.optimize.flow import BasicBlock, cfg_to_text
from sonolus.backend.place import BlockPlace, TempBlock

try:
    from sonolus.backend._opt import ir as _ir
    MARSHAL, EXPORT = _ir.marshal_in, _ir.to_basic_blocks
except (ImportError, AttributeError):
    MARSHAL = None
try:
    from sonolus.backend.optimize import profiling
except ImportError:
    profiling = None

ASSOC = {"Add", "Multiply", "Mod", "Rem"}


# -- independent normal form of programs ----------------------------------------------------------

class Names:
    """Temporaries are numbered in order of appearance; the two programs must agree on that numbering."""

    def __init__(self):
        self.m = {}

    def __call__(self, name):
        return self.m.setdefault(name, len(self.m))


def num(v):
    """Value and sign; whether it is displayed as an int is not part of the program."""
    v = float(v)
    return ("float", "nan" if v != v else v, 0 if v != v else math.copysign(1, v))


def norm(e, nm):
    cn = type(e).__name__
    if cn == "IRConst":
        return ("c", num(e.value))
    if cn == "IRGet":
        return ("g", place(e.place, nm))
    if cn == "IRSet":
        # the value is numbered first on both sides
        v = norm(e.value, nm)
        return ("s", place(e.place, nm), v)
    if cn == "BlockPlace":
        return ("g", place(e, nm))
    if cn in ("IRInstr", "IRPureInstr"):
        op = e.op.name
        args = [norm(a, nm) for a in e.args]
        if op in ASSOC:
            # left spines of these are written n-ary or binary
            if args and args[0][:2] == ("i", op):
                args = [*args[0][2:], *args[1:]]
            if len(args) == 1:
                return args[0]
        return ("i", op, *args)
    if isinstance(e, (int, float)):
        return ("c", num(e))
    raise TypeError(cn)


def place(p, nm):
    b, i = p.block, p.index
    if isinstance(b, TempBlock):
        blk = ("t", nm(b.name), b.size)
    elif isinstance(b, int):
        blk = ("b", int(b))
    else:
        blk = norm(b, nm)
        if blk[0] == "c":
            blk = ("b", int(blk[1][1]))
    ix = i
    if isinstance(ix, IRConst) and ix.value == int(ix.value):
        ix = int(ix.value)
    if isinstance(ix, int):
        return (blk, ix + p.offset)
    return (blk, norm(ix, nm), p.offset)


def effectful(e):
    return isinstance(e, (IRSet, IRInstr)) or (isinstance(e, IRPureInstr) and any(effectful(a) for a in e.args))


def same_program(o, a):
    """None or the first difference between two programs, walking both together."""
    n1, n2 = Names(), Names()
    seen, st, back = {}, [(o, a)], {}
    while st:
        x, y = st.pop()
        if x in seen or y in back:
            if seen.get(x) is not y:
                return "blocks are merged or split"
            continue
        seen[x] = y
        back[y] = x
        sx = [norm(s, n1) for s in x.statements]
        sy = [norm(s, n2) for s in y.statements]
        if sx != sy:
            for s, t in zip(sx, sy):
                if s != t:
                    return f"statement {s} became {t}"
            return f"{len(sx)} statements became {len(sy)}"
        ex = {num(e.cond) if e.cond is not None else None: e.dst for e in x.outgoing}
        ey = {num(e.cond) if e.cond is not None else None: e.dst for e in y.outgoing}
        kx = {k and (float(k[1]) if k != "nan" else k) for k in ex}
        ky = {k and (float(k[1]) if k != "nan" else k) for k in ey}
        if kx != ky:
            return f"edges {sorted(map(str, ex))} became {sorted(map(str, ey))}"
        if len(ex) > 1 or None not in ex:
            if ex and norm(x.test, n1) != norm(y.test, n2):
                return f"test {norm(x.test, n1)} became {norm(y.test, n2)}"
        fy = {k and (float(k[1]) if k != "nan" else k): d for k, d in ey.items()}
        for k in sorted(ex, key=str, reverse=True):
            st.append((ex[k], fy[k and (float(k[1]) if k != "nan" else k)]))
    return None


# -- programs meant for marshalling rather than running -------------------------------------------

def wild(r):
    blocks = [20, 1000, 10000, 2001, 0, 4095, *list(PlayBlock)[:12]]
    temps = [TempBlock(f"{r.choice(['a', 'b', 'x', 'v'])}{i}", r.choice([0, 1, 1, 1, 2, 5, 4096])) for i in range(r.randint(1, 8))]
    vals = [0, 1, -1, 0.0, -0.0, 2.5, 3.0, 3, True, 1e300, 2**31 - 1, 2**31, -2**31, 2**53 - 1, 1e-310, 0.1, math.inf, -math.inf, math.nan, 5e-324]
    pure = [o for o in Op if o.pure and o.name in ref.PURE] + [Op.Add, Op.Multiply, Op.Subtract, Op.Mod, Op.Rem]

    def pl(d):
        k = r.random()
        if k < 0.4:
            b = r.choice(temps)
        elif k < 0.75 or d <= 0:
            b = r.choice(blocks)
        else:
            b = ex(d - 1) if r.random() < 0.4 else pl(d - 1)
        i = r.choice([0, 1, 2, 3, 63]) if r.random() < 0.5 or d <= 0 else (pl(d - 1) if r.random() < 0.3 else ex(d - 1))
        if isinstance(b, IRConst):
            b = 20
        if isinstance(i, IRConst):
            i = r.choice([IRConst(3), 5, IRConst(2.0)])
        off = r.choice([0, 0, 1, 2, 7, 4000])
        if isinstance(b, TempBlock) and isinstance(i, int):
            i, off = (r.randrange(b.size) if b.size else 0), 0
        return BlockPlace(b, i, off)

    def ex(d):
        k = r.random()
        if d <= 0 or k < 0.3:
            return IRConst(r.choice(vals)) if r.random() < 0.5 else IRGet(pl(0))
        if k < 0.55:
            return IRGet(pl(d))
        op = r.choice(pure)
        if op.name in ASSOC or op.name in ("And", "Or", "Min", "Max"):
            n = r.choice([2, 2, 2, 3, 4, 7])
            if op.name in ("Min", "Max"):
                n = 2
        elif op.name in ref.NARY:
            n = 2
        else:
            n = ref.PURE[op.name][0]
        return IRPureInstr(op, [ex(d - 1) for _ in range(n)])

    nb = r.randint(1, 9)
    bs = [BasicBlock() for _ in range(nb)]
    for i, b in enumerate(bs):
        st = []
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.6:
                v = ex(r.randint(0, 4)) if r.random() < 0.85 else IRInstr(r.choice([Op.RandomInteger, Op.Play, Op.Random]), [ex(1), ex(1)])
                st.append(IRSet(pl(2), v))
            else:
                st.append(IRInstr(r.choice([Op.DebugLog, Op.Spawn]), [ex(2)]))
        b.statements = st
        n = r.choice([0, 1, 1, 2, 2, 3, 6])
        if i == nb - 1:
            n = 0
        dst = [bs[min(nb - 1, i + 1 + r.randrange(3))] if r.random() < 0.7 else r.choice(bs) for _ in range(n)]
        if n == 1:
            b.connect_to(dst[0])
        elif n:
            conds = r.sample([0, 1, 2, 3, -1, -7, 0.5, 2.5, 1e9, 4, 5, 6, 100, 1e-3], n)
            if r.random() < 0.8:
                conds[0] = None
            b.test = ex(2)
            for c, t in zip(conds, dst):
                b.connect_to(t, c)
    return bs[0]


# -- routes ------------------------------------------------------------------------------------------

def routes(ctx, entry, mode, cb, rep, desc, runnable):
    cfg = OptimizerConfig(mode, cb)
    before = cfg_to_text(entry)
    for name, lv in LEVELS.items():
        try:
            t = optimize_and_finalize(entry, lv, cfg)
        except ValueError as e:
            ctx.count("refused")
            try:
                run_passes(entry, lv, cfg)
                ctx.violation(f"refusal:{name}", f"{desc}: refused in one step at {name} ({e}) but not by the passes alone", rep)
            except ValueError:
                pass
            continue
        tb = nodes.Table()
        i0 = tb.id(t)
        ctx.count("trees")
        ctx.count("evaluations")
        ctx.distinct(hash((rep.get("seed"), rep.get("wild"), name)))
        if tb.bad:
            ctx.violation(f"leaf:{name}", f"{desc} at {name}: {tb.bad}", rep)
        try:
            ref.Tree(t)
        except ref.BadProgram as e:
            ctx.violation(f"invalid:{name}", f"{desc} at {name}: the emitted tree is not one the engine can run: {e}", rep)
        others = [("passes then emission", lambda: cfg_to_engine_node(run_passes(entry, lv, cfg)))]
        others.append(("a second compilation", lambda: optimize_and_finalize(entry, lv, cfg)))
        if MARSHAL:
            ex = lambda e: EXPORT(MARSHAL(e, mode, cb))
            others.append(("export and re-import before optimising", lambda: optimize_and_finalize(ex(entry), lv, cfg)))
            others.append(("export and re-import after optimising", lambda: cfg_to_engine_node(ex(run_passes(entry, lv, cfg)))))
            if name == "minimal":
                others.append(("two exports", lambda: optimize_and_finalize(ex(ex(entry)), lv, cfg)))
        if profiling is not None and hasattr(profiling, "enabled"):
            def prof():
                old = profiling.enabled
                profiling.enabled = True
                try:
                    return optimize_and_finalize(entry, lv, cfg)
                finally:
                    profiling.enabled = old
            others.append(("compilation with profiling", prof))
        for what, f in others:
            try:
                t2 = f()
            except Exception as e:
                if isinstance(e, ValueError) and not runnable and nodes.odd_block(t):
                    ctx.count("meaningless-blocks")
                    continue
                ctx.violation(f"route:{name}", f"{desc} at {name}: {what} raises {type(e).__name__}: {e}", rep)
                continue
            ctx.count("comparisons")
            if tb.id(t2) != i0:
                # a read-modify-write may be recognised before or after the export
                la = nodes.Table(addr=True)
                if what.startswith(("passes", "export")) and la.id(t) == la.id(t2):
                    ctx.count("address-forms")
                    continue
                if what == "export and re-import before optimising" and runnable and same_runs(t, t2, rep["seed"]):
                    # the form of an address decides what is fused and so where temporaries go
                    ctx.count("layouts-differ")
                    continue
                ctx.violation(f"route:{name}", f"{desc} at {name}: {what} gives another tree: {nodes.difference(t, t2)}", rep)
        # a tree may share a node only with an equal one: sharing is by identity here
    if cfg_to_text(entry) != before:
        ctx.violation("modified", f"{desc}: compiling changed the program it was given", rep)
    if MARSHAL:
        e1 = EXPORT(MARSHAL(entry, mode, cb))
        m = same_program(entry, e1)
        ctx.count("round-trips")
        ctx.count("evaluations")
        if m:
            ctx.violation("round-trip", f"{desc}: export changes the program: {m}", rep)
        e2 = EXPORT(MARSHAL(e1, mode, cb))
        if cfg_to_text(e1) != cfg_to_text(e2):
            ctx.violation("round-trip", f"{desc}: a second export differs from the first", rep)
        if runnable:
            for k in range(2):
                w = ref.World(rep["seed"] * 10 + k)
                ev, x = optcheck.reference(entry, w)
                if ev is None:
                    continue
                ev1, x1 = optcheck.reference(e1, w)
                ctx.count("executions")
                if ev1 != ev:
                    ctx.violation("round-trip-run", f"{desc}: the exported program runs differently: {x1 if ev1 is None else optcheck.first_diff(ev, ev1)}", rep)
                    break


def same_runs(t, t2, seed):
    ran = 0
    for k in range(6):
        w = ref.World(seed * 10 + k)
        try:
            ev = ref.run_tree(t, w)[0]
        except optcheck.DISCARD:
            continue
        try:
            if ref.run_tree(t2, w)[0] != ev:
                return False
        except optcheck.DISCARD:
            return False
        ran += 1
    return ran > 0


def no_temps(entry):
    """The program with its scalars kept in an engine block, so that it can be emitted without any pass."""
    d = cfgser.dump(entry)
    import json
    s = json.dumps(d)
    return '["t", ' not in s


def direct(ctx, seed):
    """Emission without optimisation: programs without temporaries emit and run as they are."""
    r = random.Random(seed)
    p = cfggen.gen(seed, r.choice([0.3, 0.6, 1.0]))
    d = cfgser.dump(p.entry, p.mode, p.callback)
    names = {}

    def repl(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "t" and isinstance(x[1], str):
                if x[1] not in names:
                    names[x[1]] = 30000 + len(names)
                return names[x[1]]
            return [repl(y) for y in x]
        if isinstance(x, dict):
            return {k: repl(v) for k, v in x.items()}
        return x

    entry, mode, cb = cfgser.load(repl(d))
    t = cfg_to_engine_node(entry)
    rep = {"direct": seed}
    for k in range(2):
        w = ref.World(seed * 10 + k)
        ev, x = optcheck.reference(entry, w)
        if ev is None:
            continue
        ctx.count("direct-emissions")
        ctx.count("evaluations")
        m = optcheck.run_opt(ref.Tree(t), w, ev)
        if m:
            ctx.violation("emission", f"program seed {seed} emitted without optimisation, memory {k}: {m}\n{cfgser.text(cfgser.dump(entry))[:3000]}", rep)
            return


def case(ctx, seed):
    r = random.Random(seed)
    k = r.random()
    if k < 0.45:
        e = wild(r)
        ctx.count("wild-programs")
        ctx.count("programs")
        routes(ctx, e, None, None, {"wild": seed}, f"marshalling program seed {seed}", False)
    elif k < 0.6:
        ctx.count("programs")
        direct(ctx, seed)
    else:
        p = cfggen.gen(seed, r.choice([0.3, 0.6, 1.0, 2.0]))
        ctx.count("programs")
        routes(ctx, p.entry, p.mode, p.callback, {"seed": seed}, f"program seed {seed}", True)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"case": seed})
        case(ctx, seed)


def replay(ctx, r):
    if "crash" in r:
        r = r["crash"]
    case(ctx, next(iter(r.values())))
