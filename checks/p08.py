"""P08: exactness of the optimiser's analyses against graph-theoretic definitions, well-formedness
of the program after every phase, and behaviour preservation phase by phase."""
import random

import cfggen
import cfgser
import optcheck
import ref
from p07 import temps_in, has_effect
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock, traverse_cfg_reverse_postorder
from sonolus.backend.place import BlockPlace, SSAPlace, TempBlock

try:
    from sonolus.backend._opt import ir as _ir
    DEBUG_RUN = _ir.debug_run
except (ImportError, AttributeError):
    DEBUG_RUN = None
try:
    from sonolus.backend._opt import analysis as _an
except ImportError:
    _an = None


# -- graphs ------------------------------------------------------------------------------------

def graph(r, n):
    """Successor lists of a random graph (reducible or not), node 0 the entry; some node has no successor."""
    style = r.choice(["random", "random", "chain", "nested", "dense", "switchy", "sparse"])
    succ = [[] for _ in range(n)]
    for i in range(n):
        if style == "chain":
            c = [i + 1] if i + 1 < n else []
            if r.random() < 0.35:
                c.append(r.randrange(n))
        elif style == "nested":
            c = [i + 1] if i + 1 < n else []
            if r.random() < 0.45:
                c.append(r.randint(max(0, i - r.choice([0, 1, 3, 8])), i))
            if r.random() < 0.15 and i + 1 < n:
                c.append(r.randint(i + 1, n - 1))
        elif style == "dense":
            c = [r.randrange(n) for _ in range(r.randint(1, 5))]
        elif style == "switchy":
            c = [min(n - 1, i + 1 + r.randrange(4)) for _ in range(r.randint(1, 6))]
            if r.random() < 0.2:
                c.append(r.randrange(n))
        elif style == "sparse":
            c = [r.randrange(n)] if r.random() < 0.6 else [r.randrange(n), r.randrange(n)]
        else:
            c = [r.randrange(n) for _ in range(r.choice([1, 1, 2, 2, 2, 3]))]
        succ[i] = c
    for _ in range(r.randint(1, 3)):
        succ[r.randrange(n // 2, n)] = []
    if n > 1 and not succ[0]:
        succ[0] = [1]
    return succ


def dom_oracle(n, succ):
    """dom[b]: nodes on every path from 0 to b."""
    def reach(skip):
        if skip == 0:
            return set()
        seen, st = {0}, [0]
        while st:
            for s in succ[st.pop()]:
                if s != skip and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen
    dom = [{0, b} for b in range(n)]
    dom[0] = {0}
    for a in range(1, n):
        re = reach(a)
        for b in range(n):
            if b not in re:
                dom[b].add(a)
    return dom


def loop_oracle(n, succ, dom):
    pred = [set() for _ in range(n)]
    for b in range(n):
        for s in succ[b]:
            pred[s].add(b)
    loops = {}
    for b in range(n):
        for h in succ[b]:
            if h in dom[b]:
                body = loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    return loops


def build(succ, blocks=None):
    bs = blocks or [BasicBlock(statements=[IRInstr(Op.DebugLog, [IRConst(i)])]) for i in range(len(succ))]
    for i, c in enumerate(succ):
        if not c:
            continue
        if len(c) == 1:
            bs[i].connect_to(bs[c[0]])
            continue
        if blocks is None:
            bs[i].test = IRGet(BlockPlace(20, i % 7, 0))
        for k, s in enumerate(c):
            bs[i].connect_to(bs[s], None if k == len(c) - 1 else k)
    return bs


def numbered(entry):
    order = list(traverse_cfg_reverse_postorder(entry))
    ix = {b: i for i, b in enumerate(order)}
    return order, [[ix[e.dst] for e in b.outgoing] for b in order]


def graph_case(ctx, seed):
    r = random.Random(seed)
    n = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30, 50, 70, 130])
    succ = graph(r, n)
    entry = build(succ)[0]
    order, sc = numbered(entry)
    m = len(order)
    rep = {"graph": seed}
    desc = f"graph seed {seed} ({m} blocks, edges {sc if m < 25 else '...'})"
    dom = dom_oracle(m, sc)
    ctx.count("graphs")
    ctx.count("evaluations")
    if m > 2:
        ctx.distinct(hash(str(sc)))
    if hasattr(_an, "dominators_debug"):
        d = _an.dominators_debug(entry)
        if d["n_blocks"] != m:
            ctx.violation("dominators", f"{desc}: {d['n_blocks']} blocks instead of {m}", rep)
            return
        idom = {0: {0, -1, None}}
        for b in range(1, m):
            # the strict dominator that every other strict dominator dominates
            sd = dom[b] - {b}
            idom[b] = {next(a for a in sd if sd <= dom[a])}
        bad = [b for b in range(m) if d["idom"].get(b, None) not in idom[b]]
        if bad:
            ctx.violation("dominators", f"{desc}: immediate dominator of {bad[0]} is {idom[bad[0]]}, reported {d['idom'].get(bad[0])}", rep)
        kids = {b: sorted(c for c in range(1, m) if b in idom[c]) for b in range(m)}
        bad = [b for b in range(m) if sorted(c for c in d["children"].get(b, []) if c != b) != kids[b]]
        if bad:
            ctx.violation("dominators", f"{desc}: dominator-tree children of {bad[0]} are {kids[bad[0]]}, reported {d['children'].get(bad[0])}", rep)
        pairs = [(a, b) for a in range(m) for b in range(m)] if m <= 30 else [(r.randrange(m), r.randrange(m)) for _ in range(1500)]
        for a, b in pairs:
            ctx.count("dominance-queries")
            if bool(d["dominates"](a, b)) != (a in dom[b]):
                ctx.violation("dominators", f"{desc}: dominates({a}, {b}) is reported {d['dominates'](a, b)}", rep)
                break
    if hasattr(_an, "loops_debug"):
        d = _an.loops_debug(entry)
        loops = loop_oracle(m, sc, dom)
        irreducible = any(s <= b and s not in dom[b] for b in range(m) for s in sc[b])
        if irreducible:
            ctx.count("irreducible-graphs")
        got = {h: set(body) for h, par, dep, body in d["loops"]}
        ctx.count("loops", len(loops))
        if got != loops or len(d["loops"]) != len(loops):
            ctx.violation("loops", f"{desc}: natural loops are {loops}, reported {d['loops']}", rep)
            return
        depth = [sum(1 for h in loops if b in loops[h]) for b in range(m)]
        # natural loops of different headers are nested or disjoint unless the graph makes them overlap
        nest = all(not (x & y) or x <= y or y <= x for hx, x in loops.items() for hy, y in loops.items() if hx < hy)
        for b in range(m):
            if d["depth"][b] != depth[b]:
                ctx.violation("loops", f"{desc}: block {b} lies in {depth[b]} loops, reported depth {d['depth'][b]}", rep)
                return
        if nest:
            heads = [x[0] for x in d["loops"]]
            inner = [min((len(loops[h]), h) for h in loops if b in loops[h])[1] if depth[b] else None for b in range(m)]
            for b in range(m):
                g = d["innermost"][b]
                g = heads[g] if g is not None and g >= 0 else None
                if g != inner[b]:
                    ctx.violation("loops", f"{desc}: innermost loop of {b} is headed by {inner[b]}, reported {g}", rep)
                    return
            for h, par, dep, body in d["loops"]:
                outer = [(len(loops[x]), x) for x in loops if x != h and loops[h] < loops[x]]
                want = min(outer)[1] if outer else None
                g = heads[par] if par is not None and par >= 0 else None
                if g != want or dep != depth[h]:
                    ctx.violation("loops", f"{desc}: loop {h} has parent {want} and depth {depth[h]}, reported {g} and {dep}", rep)
                    return
            for _ in range(200):
                a, b = r.randrange(m), r.randrange(m)
                want = any(b in loops[h] and a not in loops[h] for h in loops)
                if bool(d["crosses"](a, b)) != want:
                    ctx.violation("loops", f"{desc}: moving a definition from {a} into {b} crosses a loop: {want}, reported {d['crosses'](a, b)}", rep)
                    return


# -- liveness ----------------------------------------------------------------------------------

def lv_uses(e, out):
    rd, wr = [], []
    temps_in(e, rd, wr)
    out |= {p.block.name for p in rd}


def observable(e):
    """Has an effect that keeps it from being dropped when its result is unused (drawing a random number may be)."""
    if isinstance(e, IRInstr) and e.op.side_effects:
        return True
    return isinstance(e, (IRInstr, IRPureInstr)) and any(observable(a) for a in e.args)


def live_bounds(order, sc):
    """Two solutions of strong liveness, below and above what an analysis may report for arrays
    (a read reached by a write; any read). Scalars without arrays: both are the exact answer."""
    n = len(order)
    size = {}
    for b in order:
        for s in list(b.statements) + [b.test]:
            rd, wr = [], []
            temps_in(s, rd, wr)
            for p in rd + wr:
                size[p.block.name] = p.block.size
    written = set()
    gen = []
    for b in order:
        g = set()
        for s in b.statements:
            if isinstance(s, IRSet) and isinstance(s.place, BlockPlace) and isinstance(s.place.block, TempBlock) and s.place.block.size > 1:
                g.add(s.place.block.name)
        gen.append(g)
        written |= g
    din = [set() for _ in order]
    ch = True
    while ch:
        ch = False
        for i in range(n):
            o = din[i] | gen[i]
            for s in sc[i]:
                if not o <= din[s]:
                    din[s] |= o
                    ch = True

    def solve(lower):
        live_in = [set() for _ in order]
        live_out = [set() for _ in order]
        stmts = [[None] * len(b.statements) for b in order]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                b = order[i]
                o = set().union(*(live_in[s] for s in sc[i])) if sc[i] else set()
                live = set(o)
                lv_uses(b.test, live)
                done = din[i] | gen[i]
                for k in range(len(b.statements) - 1, -1, -1):
                    s = b.statements[k]
                    before = set(din[i])
                    for q in b.statements[:k]:
                        if isinstance(q, IRSet) and isinstance(q.place, BlockPlace) and isinstance(q.place.block, TempBlock):
                            before.add(q.place.block.name)
                    if lower:
                        # arrays no write can have reached yet hold nothing
                        here = before | ({s.place.block.name} if isinstance(s, IRSet) and isinstance(s.place, BlockPlace) and isinstance(s.place.block, TempBlock) else set())
                        live = {t for t in live if size.get(t, 1) <= 1 or t not in written or t in here}
                    stmts[i][k] = set(live)
                    if isinstance(s, IRSet):
                        p = s.place
                        if isinstance(p, BlockPlace) and isinstance(p.block, TempBlock) and p.block.size >= 1:
                            t = p.block.name
                            if t not in live and not (observable if lower else has_effect)(s.value):
                                continue
                            if p.block.size == 1:
                                live.discard(t)
                        tmp = set()
                        lv_uses(s, tmp)
                        live |= tmp
                    else:
                        lv_uses(s, live)
                if lower:
                    live = {t for t in live if size.get(t, 1) <= 1 or t not in written or t in din[i]}
                if live != live_in[i] or o != live_out[i]:
                    live_in[i], live_out[i] = live, o
                    ch = True
        return live_in, live_out, stmts
    return solve(True), solve(False), size


def live_program(r):
    n = r.randint(1, 12)
    succ = graph(r, n) if n > 1 else [[]]
    arrays = r.random() < 0.5
    temps = [TempBlock(f"x{i}", r.choice([1, 1, 1, r.choice([2, 3, 4])]) if arrays else 1) for i in range(r.choice([2, 4, 8, 70]))]

    def ex(d=2):
        k = r.random()
        if d == 0 or k < 0.45:
            t = r.choice(temps)
            ix = r.randrange(t.size) if r.random() < 0.6 else IRPureInstr(Op.Mod, [ex(0) if d else IRConst(0), IRConst(max(1, t.size))])
            return IRGet(BlockPlace(t, ix if t.size > 1 else 0, 0))
        if k < 0.6:
            return IRConst(r.randrange(5))
        if k < 0.7:
            return IRGet(BlockPlace(20, r.choice([0, 1]) if r.random() < 0.5 else ex(d - 1), 0))
        return IRPureInstr(r.choice([Op.Add, Op.Multiply, Op.Less]), [ex(d - 1), ex(d - 1)])

    bs = []
    for i in range(n):
        st = []
        for _ in range(r.randint(0, 5)):
            t = r.choice(temps)
            k = r.random()
            if k < 0.62:
                ix = 0 if t.size == 1 else (r.randrange(t.size) if r.random() < 0.6 else ex(1))
                v = ex() if r.random() < 0.9 else IRInstr(Op.RandomInteger, [ex(1), IRConst(9)])
                st.append(IRSet(BlockPlace(t, ix, 0), v))
            elif k < 0.8:
                st.append(IRSet(BlockPlace(20, r.randrange(3), 0), ex()))
            else:
                st.append(IRInstr(Op.DebugLog, [ex()]))
        bs.append(BasicBlock(statements=st, test=ex() if len(succ[i]) > 1 else None))
    return build(succ, bs)[0]


def live_case(ctx, seed):
    if not hasattr(_an, "liveness_debug"):
        return
    r = random.Random(seed)
    entry = live_program(r) if r.random() < 0.8 else cfggen.gen(seed, r.choice([0.3, 0.6])).entry
    order, sc = numbered(entry)
    if all(sc):
        return
    d = _an.liveness_debug(entry)
    rep = {"live": seed}
    desc = lambda: f"liveness of seed {seed}\n{cfgser.text(cfgser.dump(entry))[:2500]}\n"
    ctx.count("liveness-programs")
    ctx.count("evaluations")
    if d["n_blocks"] != len(order):
        ctx.violation("liveness", f"{desc()}{d['n_blocks']} blocks instead of {len(order)}", rep)
        return
    (lo_in, lo_out, lo_st), (hi_in, hi_out, hi_st), size = live_bounds(order, sc)
    arr = any(s > 1 for s in size.values())
    ctx.count("liveness-exact" if not arr else "liveness-bounded")
    ctx.distinct(hash(("live", seed)))
    for b in range(len(order)):
        for what, lo, got, hi in (("into", lo_in[b], d["live_in"][b], hi_in[b]), ("out of", lo_out[b], d["live_out"][b], hi_out[b])):
            ctx.count("live-sets")
            if not lo <= got <= hi:
                ctx.violation("liveness", f"{desc()}live {what} block {order_no(entry, order[b])}: at least {sorted(lo)}, at most {sorted(hi)}, reported {sorted(got)}", rep)
                return
    roots = d.get("stmt_live") or {}
    flat = [(b, k) for b in range(len(order)) for k in range(len(order[b].statements))]
    if len(roots) == len(flat):
        for (b, k), i in zip(flat, sorted(roots)):
            if not lo_st[b][k] <= roots[i] <= hi_st[b][k]:
                ctx.violation("liveness", f"{desc()}live after statement {k} of block {order_no(entry, order[b])}: at least {sorted(lo_st[b][k])}, at most {sorted(hi_st[b][k])}, reported {sorted(roots[i])}", rep)
                return
            ctx.count("live-sets")
    else:
        ctx.count("roots-unmatched")


def order_no(entry, blk):
    from sonolus.backend.optimize.flow import traverse_cfg_preorder
    return next(i for i, b in enumerate(traverse_cfg_preorder(entry)) if b is blk)


# -- phases --------------------------------------------------------------------------------------

class PhaseExec(ref.CfgExec):
    """Execution with merge nodes; values computed ahead of need may fault harmlessly (they become undefined)."""

    def __init__(self, *a, spec=True, **k):
        super().__init__(*a, **k)
        self.spec = spec

    def ev(self, e):
        if self.spec and type(e).__name__ == "IRSet":
            p = e.place
            if isinstance(p, SSAPlace) or (isinstance(p, BlockPlace) and isinstance(p.block, TempBlock) and not has_effect(e.value)):
                try:
                    v = super().ev(e.value)
                except (ref.Fault, ref.Undefined):
                    v = ref.UNDEF
                if isinstance(p, SSAPlace):
                    self.temps[(p.name, p.num)] = v
                    return v
                return self.store(p, v)
        return super().ev(e)

    def run(self):
        b, prev = self.entry, None
        s = self.s
        try:
            while True:
                s.tick()
                if b.phis:
                    new = {}
                    for p, inc in b.phis.items():
                        if prev is None or prev not in inc:
                            raise ref.BadProgram(f"merge {p} has no input for the edge taken")
                        src = inc[prev]
                        new[(p.name, p.num)] = float(src.value) if isinstance(src, IRConst) else self.load(src)
                    self.temps.update(new)
                for st in b.statements:
                    self.ev(st)
                out = {e.cond: e.dst for e in b.outgoing}
                if not out:
                    break
                prev = b
                if len(out) == 1 and None in out:
                    b = out[None]
                    continue
                t = self.ev(b.test)
                if t is ref.UNDEF:
                    raise ref.Undefined
                nxt = next((d for c, d in out.items() if c is not None and c == t), None)
                if nxt is None:
                    nxt = out.get(None)
                    if nxt is None:
                        break
                b = nxt
        except ref._Return as r:
            s.events.append(("ret", r.value))
        return s.events


def ssa_uses(e, out):
    cn = type(e).__name__
    if cn == "SSAPlace":
        out.append(e)
    elif cn == "IRGet":
        ssa_uses(e.place, out)
    elif cn == "IRSet":
        ssa_uses(e.value, out)
        if type(e.place).__name__ == "BlockPlace":
            ssa_uses(e.place, out)
    elif cn == "BlockPlace":
        ssa_uses(e.block, out)
        ssa_uses(e.index, out)
    elif cn in ("IRInstr", "IRPureInstr"):
        for a in e.args:
            ssa_uses(a, out)


def wellformed(entry, ssa, defined):
    """None or what is wrong. defined: the source assigns every temporary on every path before reading it."""
    seen, st = {entry}, [entry]
    while st:
        for e in st.pop().outgoing:
            if e.dst not in seen:
                seen.add(e.dst)
                st.append(e.dst)
    for b in seen:
        for e in b.outgoing:
            if e.src is not b:
                return "an outgoing edge names another source"
            if e not in e.dst.incoming:
                return "an edge is missing from its target"
        for e in b.incoming:
            if e.dst is not b or e not in e.src.outgoing:
                return "an incoming edge is missing from its source"
            if e.src not in seen:
                return "a block is entered from unreachable code"
        conds = {}
        for e in b.outgoing:
            if conds.setdefault(e.cond, e.dst) is not e.dst:
                return f"two edges for condition {e.cond}"
        if b.phis:
            if not ssa:
                return "merge nodes in a program that is not SSA"
            preds = {e.src for e in b.incoming}
            for p, inc in b.phis.items():
                if set(inc) != preds:
                    return f"merge {p} has inputs for {len(inc)} of {len(preds)} predecessors"
    order, sc = numbered(entry)
    if len(order) != len(seen):
        return "traversal does not visit every block"
    if not ssa:
        return None
    ix = {b: i for i, b in enumerate(order)}
    dom = dom_oracle(len(order), sc) if len(order) <= 60 else None
    where = {}
    for b in order:
        for p in b.phis:
            if p in where:
                return f"{p} is defined twice"
            where[p] = (ix[b], -1)
        for k, s in enumerate(b.statements):
            if isinstance(s, IRSet) and isinstance(s.place, SSAPlace):
                if s.place in where:
                    return f"{s.place} is defined twice"
                where[s.place] = (ix[b], k)

    def ok(p, b, k):
        if p.name == "undef" and p not in where:
            return not defined
        if p not in where:
            return False
        if not defined:
            return True
        db, dk = where[p]
        if db == b:
            return dk < k
        return dom is None or db in dom[b]

    for b in order:
        i = ix[b]
        for k, s in enumerate(b.statements):
            us = []
            ssa_uses(s, us)
            for u in us:
                if not ok(u, i, k):
                    return f"{u} is used in block {i} without a definition that dominates the use"
        us = []
        ssa_uses(b.test, us)
        for u in us:
            if not ok(u, i, len(b.statements)):
                return f"{u} is used in the test of block {i} without a definition that dominates the use"
        for p, inc in b.phis.items():
            for src, v in inc.items():
                if isinstance(v, SSAPlace) and not ok(v, ix[src], len(src.statements)):
                    return f"merge {p} takes {v} from a predecessor its definition does not dominate"
    return None


def assigned_before_read(entry):
    """No path reads a scalar temporary before assigning it."""
    order, sc = numbered(entry)
    scal = set()
    for b in order:
        for s in list(b.statements) + [b.test]:
            rd, wr = [], []
            temps_in(s, rd, wr)
            scal |= {p.block.name for p in rd + wr if p.block.size == 1}
    have = [set(scal) for _ in order]
    have[0] = set()
    first = [True]
    while first:
        first = []
        for i, b in enumerate(order):
            a = set(have[i])
            for s in b.statements:
                rd, wr = [], []
                temps_in(s, rd, wr)
                a |= {p.block.name for p in wr}
            for j in sc[i]:
                if not have[j] <= a:
                    have[j] &= a
                    first = [True]
    for i, b in enumerate(order):
        a = set(have[i])
        for s in list(b.statements) + [b.test]:
            rd, wr = [], []
            temps_in(s, rd, wr)
            if any(p.block.size == 1 and p.block.name not in a for p in rd):
                return False
            a |= {p.block.name for p in wr}
    return True


CORE = ["sccp", "gvn", "dce"]


def sequences(r):
    """(phases, result is SSA, values may be computed ahead of need)"""
    pre = ["cfg_cleanup", "ssa"]
    yield ["cfg_cleanup"], False
    yield pre, True
    one = r.choice(["sccp", "gvn", "dce", "midend", "licm", "rewrite_switch", "midend_standard"])
    yield [*pre, one], True
    yield [*pre, *CORE, "licm", "rewrite_switch"][: r.randint(3, 7)], True
    mid = [*pre, *[r.choice(["sccp", "gvn", "dce", "licm", "rewrite_switch"]) for _ in range(r.randint(1, 5))]]
    yield mid, True
    yield [*pre, "midend_standard", "ifconv"], True
    yield [*pre, *([] if r.random() < 0.3 else ["midend_standard"]), "unssa"], False
    full = [*pre, *r.choice([[], ["midend"], ["midend_standard"], ["midend_standard", "ifconv"], ["ifconv"]]), "lower"]
    yield full, False
    yield [*full, r.choice(["bump", "packing", "try_bump"])], False
    yield [*mid, "lower"], False


def phase_case(ctx, seed):
    if DEBUG_RUN is None:
        return
    r = random.Random(seed)
    p = cfggen.gen(seed, r.choice([0.3, 0.3, 0.6, 1.0, 2.0]))
    refs = []
    for k in range(2):
        w = ref.World(seed * 10 + k)
        ev, x = optcheck.reference(p.entry, w)
        if ev is not None:
            refs.append((k, w, ev))
    if not refs:
        ctx.count("discarded")
        return
    defined = assigned_before_read(p.entry)
    ctx.count("programs")
    ctx.count("fully-assigned" if defined else "partly-assigned")
    for phases, ssa in sequences(r):
        label = "+".join(phases)
        rep = {"phases": phases, "seed": seed, "ssa": ssa}
        try:
            out = DEBUG_RUN(p.entry, p.mode, p.callback, phases)
        except ValueError as e:
            if "nknown" in str(e):
                ctx.count("unknown-phase")
                continue
            ctx.violation("phase-raised:" + phases[-1], f"seed {seed}, phases {label}: {e!r}", rep)
            continue
        except Exception as e:
            ctx.violation("phase-raised:" + phases[-1], f"seed {seed}, phases {label}: {type(e).__name__}: {e}", rep)
            continue
        ctx.count("phase:" + phases[-1])
        m = wellformed(out, ssa, defined)
        ctx.count("wellformed-checks")
        if m:
            ctx.violation("malformed:" + phases[-1], f"seed {seed}, after {label}: {m}\n{cfgser.text(cfgser.dump(p.entry, p.mode, p.callback))[:3000]}", rep)
            continue
        for k, w, ev in refs:
            ctx.count("evaluations")
            ctx.count("comparisons")
            spec = ssa or "unssa" in phases
            x = PhaseExec(out, w, 2_000_000, spec=spec)
            ref.STRICT[0] = False
            try:
                got = x.run()
                m = None if got == ev else optcheck.first_diff(ev, got)
            except ref.Fault as e:
                m = f"fault: {e}"
            except ref.Undefined:
                m = "an uninitialised value reaches an observable effect"
            except ref.StepLimit:
                m = "does not finish"
            except ref.BadProgram as e:
                m = str(e)
            finally:
                ref.STRICT[0] = True
            if len(ev) > 1:
                ctx.distinct(hash((seed, label, k)))
            if m:
                ctx.violation("phase:" + phases[-1], f"seed {seed}, memory {k}, after {label}: {m}\n{cfgser.text(cfgser.dump(p.entry, p.mode, p.callback))[:3000]}", rep)
                break


def case(ctx, seed):
    k = seed % 3
    if k == 0 and _an is not None:
        graph_case(ctx, seed)
    elif k == 1 and _an is not None:
        for j in range(4):
            live_case(ctx, seed * 4 + j)
    else:
        phase_case(ctx, seed)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"case": seed})
        # workers get interleaved numbers, so the kind is drawn from the seed itself
        case(ctx, seed * 3 + random.Random(seed).randrange(3))


def replay(ctx, r):
    if "graph" in r:
        graph_case(ctx, r["graph"])
    elif "live" in r:
        live_case(ctx, r["live"])
    elif "seed" in r:
        phase_case(ctx, r["seed"])
    else:
        s = r["crash"]["case"]
        case(ctx, s * 3 + random.Random(s).randrange(3))
