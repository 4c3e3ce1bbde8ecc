"""P07: shadow-memory monitor for temporary-memory allocation, and capacity-limit workloads.

Each program is executed once; beside every temporary the monitor keeps the physical slot the allocator
chose and what that slot holds, and compares on every read. Programs around the 4096-slot limit must be
accepted or refused as they should, and accepted ones must still run correctly."""
import random

import cfggen
import cfgser
import optcheck
import ref
from optcheck import LEVELS
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.ops import Op
from sonolus.backend.optimize import OptimizerConfig, optimize_and_finalize, run_passes
from sonolus.backend.optimize.flow import BasicBlock, traverse_cfg_preorder
from sonolus.backend.place import BlockPlace, TempBlock

try:
    from sonolus.backend._opt import lower as _lower
    RUN = _lower.run_allocate
except (ImportError, AttributeError):
    RUN = None
TEMP, LIMIT = 10000, 4096
SHAPES = ["mixed", "pressure", "arrays", "loops", "memory", "pressure", "arrays"]


# -- structural walk of a program --------------------------------------------------------------

def temps_in(e, reads, writes, top=True):
    """Temporaries read and written by a statement or expression (by name)."""
    if isinstance(e, IRSet):
        temps_in(e.value, reads, writes)
        p = e.place
        if isinstance(p, BlockPlace):
            if isinstance(p.block, TempBlock):
                writes.append(p)
            elif not isinstance(p.block, int):
                temps_in(p.block, reads, writes)
            if not isinstance(p.index, (int, float)):
                temps_in(p.index, reads, writes)
    elif isinstance(e, IRGet):
        temps_in(e.place, reads, writes)
    elif isinstance(e, BlockPlace):
        if isinstance(e.block, TempBlock):
            reads.append(e)
        elif not isinstance(e.block, int):
            temps_in(e.block, reads, writes)
        if not isinstance(e.index, (int, float)):
            temps_in(e.index, reads, writes)
    elif isinstance(e, (IRInstr, IRPureInstr)):
        for a in e.args:
            temps_in(a, reads, writes)


def has_effect(e):
    if isinstance(e, IRInstr):
        return True
    if isinstance(e, IRPureInstr):
        return any(has_effect(a) for a in e.args)
    return False


def liveness(blocks):
    """Live-out sets (names) per block: scalars are killed by any write, larger temporaries never."""
    use, kill = {}, {}
    for b in blocks:
        u, k = set(), set()
        for s in list(b.statements) + [b.test]:
            rd, wr = [], []
            temps_in(s, rd, wr)
            u |= {p.block.name for p in rd} - k
            k |= {p.block.name for p in wr if p.block.size == 1}
        use[b], kill[b] = u, k
    live_in = {b: set() for b in blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            o = set().union(*(live_in[e.dst] for e in b.outgoing)) if b.outgoing else set()
            n = use[b] | (o - kill[b])
            if n != live_in[b]:
                live_in[b] = n
                ch = True
    return {b: set().union(*(live_in[e.dst] for e in b.outgoing)) if b.outgoing else set() for b in blocks}


def strip_dead(entry):
    """Removes stores no read can see, so that allocators have nothing left to delete."""
    blocks = list(traverse_cfg_preorder(entry))
    while True:
        out = liveness(blocks)
        ch = False
        for b in blocks:
            live = set(out[b])
            rd, wr = [], []
            temps_in(b.test, rd, wr)
            live |= {p.block.name for p in rd}
            keep = []
            for s in reversed(b.statements):
                rd, wr = [], []
                temps_in(s, rd, wr)
                if isinstance(s, IRSet) and wr:
                    p = wr[-1]
                    dead = p.block.name not in live or (isinstance(s.value, IRGet) and s.value.place == s.place)
                    if dead:
                        ch = True
                        if has_effect(s.value):
                            s = s.value
                            rd, wr = [], []
                            temps_in(s, rd, wr)
                            keep.append(s)
                            live |= {p.block.name for p in rd}
                        continue
                    if p.block.size == 1:
                        live.discard(p.block.name)
                live |= {p.block.name for p in rd}
                keep.append(s)
            b.statements[:] = keep[::-1]
        if not ch:
            return entry


class Unaligned(Exception):
    pass


def align(o, a, occ):
    """Matches an original expression with its allocated form, recording the base slot of each temporary place."""
    if isinstance(o, IRConst) and isinstance(a, IRConst):
        if o.value != a.value and o.value == o.value:
            raise Unaligned
        return
    if isinstance(o, (int, float)) and isinstance(a, (int, float)):
        if o != a:
            raise Unaligned
        return
    if isinstance(o, IRGet) and isinstance(a, IRGet):
        return align(o.place, a.place, occ)
    if isinstance(o, IRSet) and isinstance(a, IRSet):
        align(o.value, a.value, occ)
        return align(o.place, a.place, occ)
    if isinstance(o, (IRInstr, IRPureInstr)) and isinstance(a, (IRInstr, IRPureInstr)):
        if o.op != a.op or len(o.args) != len(a.args):
            raise Unaligned
        for x, y in zip(o.args, a.args):
            align(x, y, occ)
        return
    if isinstance(o, BlockPlace) and isinstance(a, BlockPlace):
        if isinstance(o.block, TempBlock):
            if not isinstance(a.block, int) or int(a.block) != TEMP:
                raise Unaligned
            if isinstance(o.index, int) and isinstance(a.index, int):
                base = a.index + a.offset - o.index - o.offset
            elif isinstance(o.index, int) or isinstance(a.index, int):
                raise Unaligned
            else:
                align(o.index, a.index, occ)
                base = a.offset - o.offset
            occ.setdefault(id(o), set()).add(base)
            return
        if isinstance(o.block, int) != isinstance(a.block, int):
            raise Unaligned
        align(o.block if not isinstance(o.block, int) else int(o.block), a.block if not isinstance(a.block, int) else int(a.block), occ)
        if isinstance(o.index, int) and isinstance(a.index, int):
            if o.index + o.offset != a.index + a.offset:
                raise Unaligned
            return
        align(o.index, a.index, occ)
        if o.offset != a.offset:
            raise Unaligned
        return
    raise Unaligned


def align_cfg(oe, ae):
    occ = {}
    seen = {}
    keep = []
    stack = [(oe, ae)]
    while stack:
        o, a = stack.pop()
        if o in seen:
            if seen[o] is not a:
                raise Unaligned
            continue
        seen[o] = a
        if len(o.statements) != len(a.statements):
            raise Unaligned
        for x, y in zip(o.statements, a.statements):
            align(x, y, occ)
        align(o.test, a.test, occ)
        keep.append(o)
        oo = {e.cond: e.dst for e in o.outgoing}
        ao = {e.cond: e.dst for e in a.outgoing}
        if set(oo) != set(ao):
            raise Unaligned
        for c, d in oo.items():
            stack.append((d, ao[c]))
    return occ


class Shadow(ref.CfgExec):
    """Direct execution with the allocator's slots shadowed."""

    def __init__(self, entry, world, occ, limit=60000):
        super().__init__(entry, world, limit)
        self.occ = occ
        self.phys = {}
        self.bad = None
        self.accesses = 0
        self.slots = set()

    def shadow(self, p, name, i):
        out = set()
        for base in self.occ.get(id(p), ()):
            out.add(base + i)
        return out

    def load(self, p):
        v = super().load(p)
        if isinstance(p, BlockPlace) and isinstance(p.block, TempBlock):
            b, i = self.place(p)
            for s in self.shadow(p, b[1], i):
                self.accesses += 1
                self.slots.add(s)
                if not 0 <= s < LIMIT:
                    self.bad = self.bad or f"a read of {b[1]}[{i}] goes to slot {s}"
                if v is not ref.UNDEF:
                    w, owner = self.phys.get(s, (None, None))
                    if w is None or w is ref.UNDEF or ref.canon(w) != ref.canon(v):
                        self.bad = self.bad or (f"{b[1]}[{i}] holds {v} but its slot {s} holds {w}, written for {owner}")
        return v

    def store(self, p, v):
        at = self.place(p)  # before the store: the index may read the very element that is written
        super().store(p, v)
        if isinstance(p, BlockPlace) and isinstance(p.block, TempBlock):
            b, i = at
            for s in self.shadow(p, b[1], i):
                self.accesses += 1
                self.slots.add(s)
                if not 0 <= s < LIMIT:
                    self.bad = self.bad or f"a write of {b[1]}[{i}] goes to slot {s}"
                self.phys[s] = (v, f"{b[1]}[{i}]")
        return v


def export(entry, mode, cb):
    """A program in the form the optimiser exports, so that both sides of an alignment are written alike."""
    try:
        from sonolus.backend._opt import ir
        return ir.to_basic_blocks(ir.marshal_in(entry, mode, cb))
    except (ImportError, AttributeError):
        return entry


def routes(entry, mode, cb):
    """(label, program before, program after allocation) for every allocator that can be observed."""
    cfg = OptimizerConfig(mode, cb)
    yield "minimal", run_passes(entry, LEVELS["minimal"], cfg, allocate=False), run_passes(entry, LEVELS["minimal"], cfg)
    if RUN is None:
        return
    forms = [("raw", entry)]
    for lv in ("fast", "standard"):
        forms.append((lv, run_passes(entry, LEVELS[lv], cfg, allocate=False)))
    for name, e in forms:
        e = export(strip_dead(export(e, mode, cb)), mode, cb)
        for strat in ("bump", "packing", "try_bump"):
            try:
                a = RUN(e, mode, cb, strat)
            except ValueError:
                continue
            yield f"{name}/{strat}", e, a


def shadowed(ctx, seed):
    r = random.Random(seed)
    p = cfggen.gen(seed, r.choice([0.3, 0.6, 1.0, 2.0]), r.choice(SHAPES) if r.random() < 0.6 else None)
    # one executor for every route needs programs in the frontend's own operations
    entry = strip_dead(p.entry)
    ctx.count("programs")
    rep = {"seed": seed}
    for label, before, after in routes(entry, p.mode, p.callback):
        try:
            occ = align_cfg(before, after)
        except Unaligned:
            ctx.count("unaligned:" + label)
            continue
        ctx.count("aligned:" + label)
        ctx.count("aligned")
        for k in range(3):
            w = ref.World(seed * 10 + k)
            x = Shadow(before, w, occ)
            try:
                ev = x.run()
            except optcheck.DISCARD as e:
                ctx.count("discarded:" + type(e).__name__)
                if not x.bad:
                    continue
            except ref.BadProgram:
                ctx.count("discarded:operations")
                continue
            ctx.count("evaluations")
            ctx.count("temp-accesses", x.accesses)
            if len(x.slots) > 2:
                ctx.distinct(hash((seed, label, k, len(x.slots))))
            if x.bad:
                ctx.violation(f"clobber:{label.split('/')[-1]}", f"allocation {label} of seed {seed}, memory {k}: {x.bad}\n{cfgser.text(cfgser.dump(before, p.mode, p.callback))[:3000]}", rep)
                return


# -- capacity ----------------------------------------------------------------------------------

def val(seed, i, j):
    return (seed * 7 + i * 131 + j * 17) % 1009


def arrays_program(r, sizes, phases, dyn):
    """Fills arrays and logs sampled elements. phases: list of groups of array numbers live together.
    Returns (entry, expected events)."""
    E, st = [], []
    arrs = [TempBlock(f"a{i}", s) for i, s in enumerate(sizes)]
    blocks = []

    def flush(b=None):
        nb = BasicBlock(statements=list(st))
        st.clear()
        if blocks:
            blocks[-1].connect_to(nb)
        blocks.append(nb)
        return nb

    for g in phases:
        samples = {}
        for i in g:
            a = arrs[i]
            js = sorted({0, a.size - 1, *(r.randrange(a.size) for _ in range(6))})
            for j in js:
                v = float(r.randint(-500, 500))
                if dyn and r.random() < 0.5:
                    idx = IRPureInstr(Op.Subtract, [IRGet(BlockPlace(20, 0, 0)), IRConst(1000 - j)])
                    st.append(IRSet(BlockPlace(a, idx, 0), IRConst(v)))
                else:
                    st.append(IRSet(BlockPlace(a, j, 0), IRConst(v)))
                samples[(i, j)] = v
            if r.random() < 0.3:
                flush()
        order = list(samples)
        r.shuffle(order)
        for i, j in order:
            a = arrs[i]
            if dyn:
                idx = IRPureInstr(Op.Subtract, [IRGet(BlockPlace(20, 0, 0)), IRConst(1000 - j)])
                st.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(a, idx, 0))]))
            else:
                st.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(a, j, 0))]))
            E.append(("DebugLog", ref.canon(samples[(i, j)])))
        if r.random() < 0.5:
            flush()
    flush()
    return blocks[0], E


def scalars_program(r, n):
    """n scalars all live together, each fed by memory, all read at the end."""
    st = []
    E = []
    for i in range(n):
        st.append(IRSet(BlockPlace(TempBlock(f"s{i}", 1), 0, 0), IRPureInstr(Op.Add, [IRPureInstr(Op.Random, [IRConst(i), IRConst(i + 1)]) if False else IRGet(BlockPlace(20, 1 + i % 7, 0)), IRConst(i)])))
    b = BasicBlock(statements=st)
    st2 = [IRSet(BlockPlace(20, 1 + k, 0), IRConst(0)) for k in range(7)]
    for i in range(n):
        st2.append(IRInstr(Op.DebugLog, [IRGet(BlockPlace(TempBlock(f"s{i}", 1), 0, 0))]))
    b2 = BasicBlock(statements=st2)
    b.connect_to(b2)
    return b


def capacity(ctx, seed):
    r = random.Random(seed)
    kind = r.choice(["together", "together", "phases", "mixed", "scalars"])
    dyn = r.random() < 0.85
    world = lambda: ref.World(seed, {(20, 0): 1000.0})
    if kind == "scalars":
        n = r.choice([4090, 4095, 4096, 4097, 4100]) if r.random() < 0.3 else r.randint(60, 700)
        entry = scalars_program(r, n)
        exp = None
        total = live = n
    else:
        k = r.randint(1, 6)
        total = r.choice([4096, 4096, 4095, 4097, 4090, 4100, 5000, 4096 + r.randint(-40, 40)])
        cuts = sorted(r.sample(range(2, total - 2), k - 1)) if k > 1 else []
        sizes = [b - a for a, b in zip([0, *cuts], [*cuts, total])]
        if min(sizes) < 2:
            sizes = [max(2, s) for s in sizes]
        if kind == "together":
            phases = [list(range(len(sizes)))]
        elif kind == "phases":
            sizes = [r.choice([3000, 2500, 4096, 4000, r.randint(2, 4096)]) for _ in range(r.randint(2, 4))]
            phases = [[i] for i in range(len(sizes))]
        else:
            sizes += [r.randint(2, 1500) for _ in range(2)]
            n = len(sizes)
            phases = [list(range(0, n - 2)), [n - 2, n - 1]]
        entry, exp = arrays_program(r, sizes, phases, dyn)
        total = sum(sizes)
        live = max(sum(sizes[i] for i in g) for g in phases)
    ctx.count("capacity-programs")
    rep = {"capacity": seed}
    desc = f"capacity program seed {seed} ({kind}, total {total}, live together {live}, dynamic {dyn})"
    if exp is None:
        ev, _ = optcheck.reference(entry, world(), 10**6)
        exp = ev
    for name, lv in LEVELS.items():
        try:
            t = optimize_and_finalize(entry, lv, OptimizerConfig())
        except ValueError as e:
            ctx.count("rejected:" + name)
            ctx.count("evaluations")
            if total <= LIMIT:
                ctx.violation(f"refused:{name}", f"{desc}: fits but is refused at {name}: {e}", rep)
            elif kind == "phases" and name != "minimal":
                ctx.violation(f"refused:{name}", f"{desc}: arrays that are never live together are refused at {name}: {e}", rep)
            continue
        ctx.count("accepted:" + name)
        ctx.count("evaluations")
        if kind != "scalars" and dyn and live > LIMIT and name == "minimal":
            ctx.violation(f"accepted:{name}", f"{desc}: needs more than {LIMIT} slots but is accepted at {name}", rep)
        m = optcheck.run_opt(ref.Tree(t), world(), exp, 10**7)
        if m:
            ctx.violation(f"capacity:{name}", f"{desc} at {name}: {m}", rep)
        ctx.distinct(hash((seed, name)))
    ctx.sample({"capacity": desc}, 1)


def case(ctx, seed):
    if seed % 40 == 7:
        capacity(ctx, seed)
    else:
        shadowed(ctx, seed)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        case(ctx, seed)


def replay(ctx, r):
    if "capacity" in r:
        capacity(ctx, r["capacity"])
    else:
        case(ctx, r.get("seed", (r.get("crash") or {}).get("seed")))
