"""P11: packaged node tables, constants and documents decode to what was compiled."""
import gzip
import hashlib
import json
import math
import random
import struct

import cfggen
import cfgser
import enggen
import engjudge
import optcheck
import ref
import sample
import script
import sonolus.build.compile as bc
from optcheck import LEVELS
from sonolus.backend.node import FunctionNode
from sonolus.backend.ops import Op
from sonolus.backend.optimize import OptimizerConfig, optimize_and_finalize
from sonolus.build import engine as be
from sonolus.script.project import BuildConfig

try:
    from sonolus.build.node import OutputNodeGenerator
except ImportError:
    OutputNodeGenerator = None

OTHERS = ("declared-", "configuration", "mode-", "place-moves", "field-range", "slot-shared", "layout-inherited", "glob-shared", "import-", "export-")
FIELDS = dict(play="play_data", watch="watch_data", preview="preview_data", tutorial="tutorial_data")


def same(a, b):
    """Node for node the same program."""
    stack, seen = [(a, b)], set()
    while stack:
        x, y = stack.pop()
        if (id(x), id(y)) in seen:
            continue
        seen.add((id(x), id(y)))
        fx, fy = isinstance(x, FunctionNode), isinstance(y, FunctionNode)
        if fx != fy:
            return f"{str(x)[:200]} became {str(y)[:200]}"
        if fx:
            if x.func is not y.func or len(x.args) != len(y.args):
                return f"{x.func.name} with {len(x.args)} arguments became {y.func.name} with {len(y.args)}"
            stack += zip(x.args, y.args)
        elif not x == y:
            return f"{x!r} became {y!r}"
    return None


# -- trees in one table ------------------------------------------------------------------------------

def near(r, v):
    return r.choice([v, v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), -v, v + 1, float(round(v)), v * (1 + 2**-24), v * (1 + 2**-45)])


def synthetic(r, pool):
    """A tree over the pool's subtrees, some of them rebuilt and some almost the same."""
    ops = [Op.Add, Op.Multiply, Op.Subtract, Op.Divide, Op.Get, Op.Set, Op.Execute, Op.Block, Op.If, Op.Switch, Op.SwitchWithDefault, Op.While, Op.JumpLoop, Op.Break,
           Op.Draw, Op.DebugLog, Op.Not, Op.Negate, Op.Min, Op.Mod, Op.Rem, Op.IncrementPost, Op.SetAdd, Op.Abs, Op.Sin]

    def copy(x):
        return FunctionNode(x.func, tuple(copy(a) for a in x.args)) if isinstance(x, FunctionNode) else x

    def leaf():
        q = r.random()
        if q < 0.35:
            return r.choice([0, 1, 2, -1, 1.0, 2.0, 0.0, 0.5, 10, 100])
        if q < 0.75:
            v = near(r, r.choice([0.1, 1 / 3, 1.0, 16777216.0, 9007199254740992.0, 1e-9, 1e300, 123456.789]))
            return int(v) if v == int(v) and abs(v) < 1e15 and r.random() < 0.5 else v
        return r.choice([2**53, 2**53 + 1, 2**53 + 2, -(2**31), 2**31 - 1, 4000, 10000])

    def build(d):
        q = r.random()
        if pool and q < 0.3:
            x = r.choice(pool)
            q = r.random()
            if q < 0.3:
                return copy(x)
            if q < 0.7 and isinstance(x, FunctionNode):  # differs in one place
                k = r.randrange(4)
                args = list(x.args)
                if k == 0 and args:
                    i = r.randrange(len(args))
                    args[i] = near(r, float(args[i])) if not isinstance(args[i], FunctionNode) else leaf()
                elif k == 1 and len(args) > 1:
                    i = r.randrange(len(args) - 1)
                    args[i], args[i + 1] = args[i + 1], args[i]
                elif k == 2:
                    args = args[:-1] if args and r.random() < 0.5 else [*args, leaf()]
                else:
                    return FunctionNode(r.choice(ops), tuple(args))
                return FunctionNode(x.func, tuple(args))
            return x
        if d <= 0 or q < 0.4:
            x = leaf()
        else:
            x = FunctionNode(r.choice(ops), tuple(build(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 5]))))
        pool.append(x)
        return x
    return build(r.randint(0, 6))


def deep(r):
    x = r.choice([0, 0.5])
    for i in range(r.choice([50, 200, 400])):
        x = FunctionNode(Op.Negate, (x,)) if r.random() < 0.7 else FunctionNode(Op.Add, (x, i % 3))
    return x


def trees(ctx, seed):
    r = random.Random(f"tree{seed}")
    rp = {"trees": seed}
    roots, pool = [], []
    for i in range(r.randint(2, 30)):
        q = r.random()
        if q < 0.15:
            try:
                p = cfggen.gen(r.randrange(1 << 30), r.choice([0.3, 0.6]))
                roots.append(optimize_and_finalize(p.entry, LEVELS[r.choice(sorted(LEVELS))], OptimizerConfig(p.mode, p.callback)))
            except ref.BadProgram:
                pass
        elif q < 0.2:
            roots.append(deep(r))
        elif q < 0.3 and roots:
            roots.append(r.choice(roots))
        else:
            roots.append(synthetic(r, pool))
    gen = OutputNodeGenerator()
    at = [gen.add(t) for t in roots]
    early = len(gen.get())
    table = engjudge.doc(be.package_data({"nodes": gen.get()}))["nodes"]

    def bad(k, msg):
        ctx.violation(k, f"seed {seed}: {msg}", rp)
    n = engjudge.Nodes(table, bad)
    for i, (t, k) in enumerate(zip(roots, at)):
        m = same(t, n.at(k))
        if m:
            bad("node-decode", f"tree {i} of {len(roots)}: {m}")
            break
    ctx.count("tables")
    ctx.count("trees", len(roots))
    ctx.count("nodes", early)
    ctx.count("evaluations")
    ctx.distinct(hashlib.sha1(json.dumps(table).encode()).hexdigest())


# -- documents ---------------------------------------------------------------------------------------

def document(r, d=4):
    q = r.random()
    if d == 0 or q < 0.4:
        return r.choice([None, True, False, 0, -1, 2**60, 0.1, 1e-300, -2.5, 1e22, 5e-324, 1.7976931348623157e308, "", "é", "日本\u2028", '"\\/\b\n\t', "\x00\x1f\x7f", "🎵", "a" * 300, "\u00a0"])
    if q < 0.7:
        return [document(r, d - 1) for _ in range(r.randint(0, 5))]
    return {r.choice(["a", "b c", "é", "", '"', "x", "name", "🎵"]) + str(i): document(r, d - 1) for i in range(r.randint(0, 5))}


def documents(ctx, seed):
    r = random.Random(f"doc{seed}")
    for _ in range(20):
        x = document(r)
        b = be.package_data(x)
        rp = {"documents": seed}
        if json.dumps(json.loads(gzip.decompress(b).decode("utf-8"))) != json.dumps(x):
            ctx.violation("document", f"{json.dumps(x)[:300]} is packaged as {gzip.decompress(b)[:300]!r}", rp)
        if json.dumps(be.unpackage_data(b)) != json.dumps(x):
            ctx.violation("document", f"{json.dumps(x)[:300]} comes back as {json.dumps(be.unpackage_data(b))[:300]}", rp)
        if be.unpackage_data(gzip.compress(json.dumps(x, ensure_ascii=False, indent=r.choice([None, 1])).encode())) != x:
            ctx.violation("document", f"{json.dumps(x)[:300]} written elsewhere is not read back", rp)
        if b[4:8] != b"\0\0\0\0" or be.package_data(x) != b:
            ctx.violation("document-bytes", "the packaged bytes depend on the time or the run", rp)
        ctx.count("documents")


# -- whole engines -----------------------------------------------------------------------------------

class Recorder:
    """Keeps what the frontend hands to the rest of the build: one program per callback."""

    def __enter__(self):
        self.seen = []
        self.old = getattr(bc, "callback_to_cfg", None)
        if self.old is None:
            return self

        def wrap(project_state, mode_state, callback, name, archetype=None):
            cfg = self.old(project_state, mode_state, callback, name, archetype)
            self.seen.append((mode_state.mode, archetype, name, cfgser.dump(cfg, mode_state.mode, name)))
            return cfg
        bc.callback_to_cfg = wrap
        self.adds = []
        if OutputNodeGenerator is not None and hasattr(OutputNodeGenerator, "add"):
            self.add = OutputNodeGenerator.add
            depth = 0

            def add(gen, node):
                nonlocal depth
                depth += 1
                try:
                    i = self.add(gen, node)
                finally:
                    depth -= 1
                if depth == 0:
                    self.adds.append((gen, node, i))
                return i
            OutputNodeGenerator.add = add
        return self

    def __exit__(self, *a):
        if self.old is not None:
            bc.callback_to_cfg = self.old
            if hasattr(self, "add"):
                OutputNodeGenerator.add = self.add


def judge(ctx, data, packaged, rec, bad, seed, share=1.0):
    r = random.Random(f"j{seed}")
    rom, rest = engjudge.rom(packaged.rom)
    if rest or len(rom) < 1:
        bad("rom", f"{rest} bytes too many in the read-only memory of {len(rom)} numbers")
    docs = {m: engjudge.doc(getattr(packaged, f)) for m, f in FIELDS.items()}
    tables = {m: engjudge.Nodes(d["nodes"], bad) for m, d in docs.items()}
    # every node added is in exactly the table of its build
    gens = {}
    for gen, node, i in rec.adds:
        gens.setdefault(id(gen), []).append((node, i))
    for adds in gens.values():
        fits = [m for m, t in tables.items() if len(t.out) and all(type(i) is int and i < len(t.out) and not same(node, t.out[i]) for node, i in adds)]
        if not fits:
            bad("node-decode", f"programs added at {[i for _, i in adds][:10]} are in no package")
        ctx.count("roots", len(adds))
    # every callback behaves like the program traced for it
    progs = {}
    for mode, arch, name, d in rec.seen:
        progs[mode.name.lower(), arch, name] = d
    for m, d in docs.items():
        classes = list(getattr(data, m).archetypes) if m != "tutorial" else []
        todo = []
        if m != "tutorial" and len(classes) == len(d["archetypes"]):
            for cls, x in zip(classes, d["archetypes"]):
                for k, v in x.items():
                    if isinstance(v, dict) and "index" in v and k != "imports":
                        todo.append((cls, k, v["index"]))
        for k in ("updateSpawn", "preprocess", "navigate", "update"):
            if k in d and isinstance(d[k], int):
                todo.append((None, k, d[k]))
        for cls, k, i in todo:
            if r.random() > share:
                continue
            p = next((progs[m, c, k] for c in (cls.__mro__ if cls else [None]) if (m, c, k) in progs), None)
            if p is None:
                continue
            entry = cfgser.load(p)[0]
            tree = ref.Tree(tables[m].at(i))
            for _ in range(2):
                w = ref.World(r.randrange(1 << 30), rom=rom)
                ev, why = optcheck.reference(entry, w)
                if ev is None:
                    ctx.count("discarded")
                    continue
                msg = optcheck.run_opt(tree, w, ev)
                ctx.count("compared")
                ctx.count("events", len(ev))
                if msg:
                    bad("other-program", f"{m} {cls and cls.__name__}.{k}: the packaged program differs from the one traced: {msg}")
                    break
    return docs, rom


class Romful(enggen.Gen):
    """Engines with many constant arrays, shared by the modes."""

    def globals_(self):
        super().globals_()
        r = self.r
        odd = [0.1, 1 / 3, 3.4028234e38, 1e-45, 1e-40, 16777217, 2**24 + 3, 1e20, -1e-20, 0, 1, True, False, 33554435.0, math.inf, -math.inf, math.nan, 0.30000001192092896, 0.3, 7, 2**31 + 1]
        for _ in range(r.randint(2, 8)):
            name = self.id("ROM")
            vs = [r.choice(odd) if r.random() < 0.6 else self.val() for _ in range(r.randint(2, 7))]
            if self.rom and r.random() < 0.4:  # like an earlier one
                vs = list(r.choice(self.rom)[1])
                q = r.random()
                if q < 0.3:
                    vs[r.randrange(len(vs))] = r.choice(odd)
                elif q < 0.5:
                    vs = vs[:-1] if len(vs) > 2 else [*vs, 1]
                elif q < 0.6:
                    vs.reverse()
            self.line(f"{name} = Array({', '.join(repr(v) if not isinstance(v, float) or math.isfinite(v) else f'float({str(v)!r})' for v in vs)})")
            self.rom.append((name, vs))
        self.line()

    def action(self, m, cb, a):
        if self.r.random() < 0.4:
            x = self.do_rom(m, cb, a)
            if x:
                return x
        return super().action(m, cb, a)

    def do_rom(self, m, cb, a):
        name, vs = self.r.choice(self.rom)
        j = self.r.randrange(len(vs))
        if self.r.random() < 0.15:
            v = self.r.choice([math.inf, -math.inf, math.nan])
            return [f"debug_log({'-' if v < 0 else ''}math.{'nan' if v != v else 'inf'})"], [("rom", v)]
        if self.r.random() < 0.2 and math.isfinite(vs[j]):
            return [f"debug_log({name}[{j}])"], [("rom", float(vs[j]))]
        return [f"debug_log({name}[int(inp({j}))])"], [("rom", float(vs[j]))]


def engine(ctx, seed):
    r = random.Random(f"p11{seed}")
    g = Romful(f"N{seed}")
    m = script.module(ctx, "import math\n" + g.src)
    level = r.choice(sorted(LEVELS))
    seen = set()

    def bad(k, msg):
        if not k.startswith(OTHERS) and k not in seen:
            seen.add(k)
            ctx.violation(k, f"seed {seed} ({level}): {msg}", {"engine": seed})
    try:
        with Recorder() as rec:
            p = be.package_engine(m.data, BuildConfig(passes=LEVELS[level]))
        docs, rom = judge(ctx, m.data, p, rec, bad, seed)
        engjudge.observe(g, docs, rom, bad, ctx.count)
        ctx.count("engines")
        ctx.count("evaluations")
        ctx.count("rom-values", len(rom))
        ctx.distinct(hashlib.sha1(json.dumps(docs).encode()).hexdigest())
        ctx.sample({"seed": seed, "level": level, "nodes": {k: len(d["nodes"]) for k, d in docs.items()}, "rom": len(rom)})
    finally:
        script.forget(m)


PROJECT = None


def pydori(ctx, seed):
    global PROJECT
    r = random.Random(f"py{seed}")
    if PROJECT is None:
        PROJECT = sample.load(ctx.tree)
    level = r.choice(["minimal", "minimal", "fast", "standard"])

    def bad(k, msg):
        ctx.violation(k, f"sample project at {level}: {msg}", {"pydori": seed})
    build = {f"build_{m}": r.random() < 0.4 for m in enggen.MODES}
    with Recorder() as rec:
        p = be.package_engine(PROJECT.engine.data, BuildConfig(passes=LEVELS[level], **build))
    data = PROJECT.engine.data
    docs = {m: engjudge.doc(getattr(p, f)) for m, f in FIELDS.items()}
    judge(ctx, data, p, rec, bad, seed, 0.3)
    ctx.count("sample-builds")
    ctx.count("sample-nodes", sum(len(d["nodes"]) for d in docs.values()))


def work(ctx):
    first = True
    for seed in ctx.cases():
        q = random.Random(f"k{seed}").random()
        if first or q < 0.004:
            first = False
            ctx.mark({"pydori": seed})
            pydori(ctx, seed)
        elif q < 0.4 and OutputNodeGenerator is not None:
            ctx.mark({"trees": seed})
            trees(ctx, seed)
        elif q < 0.45:
            ctx.mark({"documents": seed})
            documents(ctx, seed)
        else:
            ctx.mark({"engine": seed})
            engine(ctx, seed)


def replay(ctx, r):
    r = r.get("crash") or r.get("hang") or r
    for k, f in (("pydori", pydori), ("trees", trees), ("documents", documents), ("engine", engine)):
        if k in r:
            f(ctx, r[k])
