"""P01: differential monitoring of every optimisation level against direct execution of the CFG."""
import cfggen
import cfgser
import optcheck
import ref
from optcheck import LEVELS, OptimizerConfig, optimize_and_finalize
from sonolus.backend.optimize.flow import traverse_cfg_preorder

SIZES = [0.3, 0.6, 1.0, 1.0, 2.0, 4.0]


def one(ctx, seed):
    size = SIZES[seed % len(SIZES)]
    p = cfggen.gen(seed, size)
    ctx.count("programs")
    d = None
    trees = {}
    worlds = [{"seed": seed * 10 + i} for i in range(3)]
    refs = []
    for wa in worlds:
        w = ref.World(**wa)
        ev, x = optcheck.reference(p.entry, w)
        if ev is None:
            ctx.count("discarded:" + x)
            continue
        refs.append((wa, w, ev, x))
    if not refs:
        return
    for name, lv in LEVELS.items():
        try:
            trees[name] = ref.Tree(optimize_and_finalize(p.entry, lv, OptimizerConfig(p.mode, p.callback)))
        except ref.BadProgram as e:
            d = cfgser.dump(p.entry, p.mode, p.callback)
            optcheck.report(ctx, "bad-program", name, d, worlds[0], str(e))
        except Exception as e:
            d = cfgser.dump(p.entry, p.mode, p.callback)
            optcheck.report(ctx, f"raised-{type(e).__name__}", name, d, refs[0][0], f"a legal program is refused: {e!r}")
    for wa, w, ev, x in refs:
        ctx.count("evaluations")
        ctx.count("events", len(ev))
        ctx.count("blocks-executed", x.blocks_seen)
        if len(ev) >= 2 and x.blocks_seen >= 3:
            ctx.distinct(hash(tuple(ev)))
        for name, t in trees.items():
            ctx.count("comparisons")
            m = optcheck.run_opt(t, w, ev)
            if m:
                d = cfgser.dump(p.entry, p.mode, p.callback)
                optcheck.report(ctx, "diff", name, d, wa, m)
    for f in p.features:
        if not f.startswith("cb:"):
            ctx.count("feature:" + f)
        else:
            ctx.count("with-mode-and-callback")
    t = trees.get("standard")
    if t:
        for o in t.ops:
            if "Shifted" in o or "Pointed" in o or o.startswith(("SetAdd", "Increment", "Decrement", "SetMul", "SetSub", "Switch", "SetDiv")):
                ctx.count("emitted:" + o)
    if len(ctx.samples) < 1 and 4 < sum(1 for _ in traverse_cfg_preorder(p.entry)) < 12:
        ctx.sample({"seed": seed, "cfg": cfgser.text(cfgser.dump(p.entry, p.mode, p.callback))[:1500], "events": [list(e) for e in refs[0][2][:6]]})


def corpus_world(style, seed, rom):
    def g(block, index):
        u = ref.hash01(seed, block, index)
        if style == 0:
            return float(int(u * 3))
        if style == 1:
            return float(int(u * 9) - 2)
        if style == 2:
            return int(u * 64) / 8 - 2
        return float(int(u * 3)) if ref.hash01(seed, "k", block, index) < 0.6 else int(u * 64) / 8 - 2
    return ref.World(seed, rom=rom, gen=g)


def corpus(ctx):
    import sample
    from sonolus.script.internal.context import RuntimeChecks

    project = sample.load(ctx.tree)
    n = 0
    for checks in (RuntimeChecks.NONE, RuntimeChecks.NOTIFY_AND_TERMINATE):
        for label, mode, cb, factory in sample.callbacks(project, checks):
            n += 1
            if n % ctx.nworkers != ctx.worker:
                continue
            if ctx.quick and ctx.left() < ctx.budget * 0.45:
                ctx.count("corpus-skipped")
                continue
            cfg, rom = factory()
            trees = {name: ref.Tree(optimize_and_finalize(cfg, lv, OptimizerConfig(mode, cb))) for name, lv in LEVELS.items()}
            ctx.count("corpus-programs")
            done = 0
            for k in range(12 if ctx.quick else 60):
                w = corpus_world(k % 4, ctx.seed * 1000 + k, rom)
                ev, x = optcheck.reference(cfg, w, 30000)
                if ev is None:
                    ctx.count("corpus-discarded:" + x)
                    continue
                done += 1
                ctx.count("corpus-executions")
                ctx.count("evaluations")
                ctx.count("corpus-events", len(ev))
                ctx.distinct(hash(tuple(ev)))
                for name, t in trees.items():
                    ctx.count("comparisons")
                    m = optcheck.run_opt(t, w, ev)
                    if m:
                        ctx.violation(f"corpus-diff:{name}", f"{label} at {name} (memory {k % 4}/{ctx.seed * 1000 + k}): {m}",
                                      {"corpus": label, "checks": checks.name, "k": k, "seed": ctx.seed, "level": name})


def work(ctx):
    ctx.mark({"corpus": True})
    corpus(ctx)
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        one(ctx, seed)


def replay(ctx, r):
    if "program" in r:
        k, m = optcheck.verdict(r["program"], r["world"], r["level"])
        if k:
            ctx.violation(k, m, r)
    elif "crash" in r and r["crash"] and "seed" in r["crash"]:
        one(ctx, r["crash"]["seed"])
    else:
        ctx.nworkers, ctx.worker = 1, 0
        corpus(ctx)
