"""Seeded generator of legal control-flow programs, as the frontend could produce them.

gen(seed, size, shape) -> Program (entry BasicBlock, mode, callback, features). Deterministic in its arguments, so a
program can be rebuilt at will. Programs aim at what each pass looks for: repeated expressions with
intervening stores, diamonds of pure assignments, equality chains, invariant expressions in loops,
copies and swaps around back edges, read-modify-writes, strided and pointer accesses, selects, switches
with and without default, effects with results, random draws, early exits, register pressure.
Executions that fault or use an uninitialised temporary are discarded by the monitor, not avoided at all cost here.
"""
import random

from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace, TempBlock

CONSTS = [0, 1, -1, 2, 3, -2, 4, 5, 7, 8, 0.5, -0.5, 1.5, 2.5, -1.5, 3.25, 10, 100, -3, 0.1, 1e-3, 255, 1 / 3]
SMALL = [0, 1, 2, 3, 4, 5]
UN = ["Abs", "Negate", "Not", "Floor", "Ceil", "Round", "Trunc", "Frac", "Sign"]
UN2 = ["Sin", "Cos", "Arctan", "Tanh", "Degree", "Radian", "EaseInQuad", "EaseOutSine", "EaseInOutCubic", "EaseOutInExpo", "EaseInBack", "EaseOutElastic"]
BIN = ["Add", "Subtract", "Multiply", "Min", "Max", "Add", "Subtract", "Multiply"]
CMP = ["Equal", "NotEqual", "Less", "LessOr", "Greater", "GreaterOr"]


class Program:
    def __init__(self):
        self.features = set()


class G:
    def __init__(self, seed, size=1.0, shape=None, modes=True):
        self.r = random.Random(f"cfg-{seed}")
        self.size = size
        r = self.r
        self.p = Program()
        self.mode = None
        self.callback = None
        self.rblocks = []
        if modes and r.random() < 0.7:
            self.mode = r.choice(list(Mode))
            self.callback = r.choice(sorted(self.mode.callbacks))
            bl = [b for b in self.mode.blocks if int(b) not in (10000, 3000)]
            w = [b for b in bl if self.callback in b.writable]
            ro = [b for b in bl if self.callback not in b.writable]
            r.shuffle(w)
            r.shuffle(ro)
            self.wblocks = w[: r.randint(1, 3)]
            self.rblocks = ro[: r.randint(0, 2)]
            self.p.features.add(f"cb:{self.mode.name}.{self.callback}")
        else:
            self.wblocks = [20, 21][: r.randint(1, 2)]
        if not self.wblocks:
            self.wblocks = [20]
        self.nsc = r.randint(2, 7)
        self.arrays = [TempBlock(f"arr{i}", r.choice([1, 2, 3, 4, 8, r.randint(5, 40)])) for i in range(r.choice([0, 0, 1, 1, 2, 3]))]
        self.pool = []
        self.loops = []
        self.k = 0
        self.cur = None
        self.counters = []
        self.rand_site = 0
        self.budget = int(60 * size)
        self.shape = shape or r.choice(["mixed", "mixed", "mixed", "pressure", "loops", "branches", "switches", "memory", "arrays"])
        self.p.features.add("shape:" + self.shape)

    # ---- helpers
    def feat(self, f):
        self.p.features.add(f)

    def sc(self, i=None):
        return BlockPlace(TempBlock(f"s{self.r.randrange(self.nsc) if i is None else i}", 1), 0, 0)

    def tmp(self):
        self.k += 1
        return BlockPlace(TempBlock(f"t{self.k}", 1), 0, 0)

    def const(self, small=False):
        return IRConst(self.r.choice(SMALL if small else CONSTS))

    def mem(self, write):
        r = self.r
        bl = r.choice(self.wblocks if write or not self.rblocks or r.random() < 0.6 else self.rblocks)
        x = r.random()
        if x < 0.55:
            self.feat("mem-const")
            i = r.randint(0, 5)
            if r.random() < 0.2:
                o = r.randint(0, i)
                return BlockPlace(bl, i - o, o)
            return BlockPlace(bl, i, 0)
        if x < 0.9:
            self.feat("mem-dyn")
            return BlockPlace(bl, self.index(r.randint(2, 6)), r.choice([0, 0, 1, 3]))
        if self.ptrs and (not write or self.mode is None or True):
            self.feat("mem-ptr")
            p = r.choice(self.ptrs)
            # a pointer: block id and index held in temporaries
            if r.random() < 0.5:
                return BlockPlace(p[0], p[1], r.choice([0, 0, 1, 2]))
            return BlockPlace(p[0], self.index(4), r.choice([0, 0, 1]))
        return BlockPlace(bl, r.randint(0, 5), 0)

    def index(self, n):
        """A BlockPlace or int or expression usable as index, in [0, n)."""
        r = self.r
        x = r.random()
        if self.counters and x < 0.5:
            c = r.choice(self.counters)
            y = r.random()
            if y < 0.35:
                return IRGet(c[0]) if c[1] <= n and r.random() < 0.5 else IRPureInstr(Op.Mod, [IRGet(c[0]), IRConst(n)])
            if y < 0.7:
                st = r.choice([2, 3, 4])
                self.feat("stride")
                e = IRPureInstr(Op.Multiply, [IRGet(c[0]), IRConst(st)])
                if r.random() < 0.5:
                    e = IRPureInstr(Op.Add, [e, IRConst(r.randint(0, 3))])
                return IRPureInstr(Op.Mod, [e, IRConst(n)]) if n < c[1] * st + 4 else e
            return IRPureInstr(Op.Mod, [IRPureInstr(Op.Add, [IRGet(c[0]), IRConst(r.randint(0, 3))]), IRConst(n)])
        e = self.expr(1)
        return IRPureInstr(Op.Mod, [IRPureInstr(Op.Floor, [IRPureInstr(Op.Abs, [e])]), IRConst(n)])

    def arr(self):
        r = self.r
        a = r.choice(self.arrays)
        if r.random() < 0.5:
            return BlockPlace(a, r.randrange(a.size), 0)
        self.feat("arr-dyn")
        if a.size > 2 and r.random() < 0.3:
            o = r.randint(0, a.size - 1)
            return BlockPlace(a, self.index(a.size - o), o)
        return BlockPlace(a, self.index(a.size), 0)

    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.3:
            return self.const()
        if x < 0.7:
            return IRGet(self.sc())
        if x < 0.8 and self.counters:
            return IRGet(r.choice(self.counters)[0])
        if x < 0.9 and self.arrays:
            return IRGet(self.arr())
        if self.depth_mem > 2:
            return self.const()
        self.depth_mem += 1
        try:
            return IRGet(self.mem(False))
        finally:
            self.depth_mem -= 1

    def expr(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.leaf()
        if self.pool and r.random() < 0.2:
            self.feat("reuse-expr")
            return r.choice(self.pool)
        x = r.random()
        if x < 0.38:
            op = r.choice(BIN)
            if r.random() < 0.2:
                # identities and n-ary chains
                a = self.expr(d - 1)
                y = r.random()
                if y < 0.35:
                    e = IRPureInstr(Op[op], [a, IRConst(r.choice([0, 1, -1, 2]))])
                elif y < 0.5:
                    e = IRPureInstr(Op[op], [IRConst(r.choice([0, 1, -1, 2])), a])
                elif y < 0.65:
                    e = IRPureInstr(Op[op], [a, a])
                elif op in ("Min", "Max"):
                    e = IRPureInstr(Op[op], [a, self.expr(d - 1)])
                else:
                    e = IRPureInstr(Op[op], [a, *(self.expr(d - 1) for _ in range(r.randint(2, 4)))])
            else:
                e = IRPureInstr(Op[op], [self.expr(d - 1), self.expr(d - 1)])
        elif x < 0.52:
            e = self.cond(d)
        elif x < 0.64:
            e = IRPureInstr(Op[r.choice(UN)], [self.expr(d - 1)])
        elif x < 0.67:
            e = IRPureInstr(Op[r.choice(UN2)], [self.expr(d - 1)])
        elif x < 0.74:
            op = r.choice(["Divide", "Mod", "Rem", "Divide"])
            if r.random() < 0.75:
                b = IRConst(r.choice([2, 3, -2, 4, 0.5, -1, 1, 7, 10]))
            else:
                b = IRPureInstr(Op.Add, [IRPureInstr(Op.Abs, [self.expr(d - 1)]), IRConst(1)])
            e = IRPureInstr(Op[op], [self.expr(d - 1), b])
        elif x < 0.76:
            e = IRPureInstr(Op.Power, [self.expr(d - 1), IRConst(r.choice([0, 1, 2, 3]))])
        elif x < 0.82:
            self.feat("select")
            e = IRPureInstr(Op.If, [self.cond(d - 1) if r.random() < 0.7 else self.expr(d - 1), self.const(), self.const()])
        elif x < 0.86:
            self.feat("select-switch")
            ks = r.sample(range(-2, 6), r.randint(1, 4))
            if r.random() < 0.3:
                ks = list(range(r.randint(2, 5)))
            a = [self.expr(d - 1)]
            for k in ks:
                a += [IRConst(k), self.const()]
            e = IRPureInstr(Op.SwitchWithDefault, [*a, self.const()]) if r.random() < 0.8 else IRPureInstr(Op.Switch, a)
        elif x < 0.89:
            self.feat("clamp")
            e = IRPureInstr(Op.Clamp, [self.expr(d - 1), IRConst(r.choice([-3, 0, 0, 1])), IRConst(r.choice([0, 1, 2, 5]))])
        elif x < 0.92:
            op = r.choice(["Lerp", "LerpClamped"])
            e = IRPureInstr(Op[op], [self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)])
        elif x < 0.94:
            op = r.choice(["Unlerp", "UnlerpClamped", "Remap", "RemapClamped"])
            lo = r.choice([0, 1, -2])
            hi = lo + r.choice([1, 2, 4, -3])
            a = [IRConst(lo), IRConst(hi)]
            if op.startswith("Remap"):
                a += [self.expr(d - 1), self.expr(d - 1)]
            e = IRPureInstr(Op[op], [*a, self.expr(d - 1)])
        elif x < 0.96:
            self.feat("judge")
            if r.random() < 0.5:
                e = IRPureInstr(Op.JudgeSimple, [self.expr(d - 1), self.expr(d - 1), IRConst(1), IRConst(2), IRConst(3)])
            else:
                e = IRPureInstr(Op.Judge, [self.expr(d - 1), self.expr(d - 1), IRConst(-1), IRConst(1), IRConst(-2), IRConst(2.5), IRConst(-3), IRConst(4)])
        else:
            self.feat("query")
            op = r.choice(["BeatToTime", "TimeToScaledTime", "HasSkinSprite", "StreamHas", "StreamGetValue"])
            e = IRPureInstr(Op[op], [self.expr(d - 1) for _ in range(2 if op.startswith("Stream") else 1)])
        if r.random() < 0.3:
            self.pool.append(e)
            if len(self.pool) > 12:
                self.pool.pop(r.randrange(len(self.pool)))
        return e

    def cond(self, d=1):
        r = self.r
        x = r.random()
        if x < 0.6:
            return IRPureInstr(Op[r.choice(CMP)], [self.expr(d - 1), self.expr(d - 1)])
        if x < 0.75:
            return IRPureInstr(Op.Not, [self.cond(d - 1) if d > 0 else self.leaf()])
        if x < 0.9 and d > 0:
            self.feat("andor")
            return IRPureInstr(Op[r.choice(["And", "Or"])], [self.cond(d - 1) for _ in range(r.choice([2, 2, 3]))])
        return self.leaf()

    def bound(self, e):
        if self.r.random() < 0.35:
            return e
        return IRPureInstr(Op.Min, [IRPureInstr(Op.Max, [e, IRConst(-50)]), IRConst(50)])

    def add(self, st):
        self.cur.statements.append(st)

    # ---- statements
    def stmt(self):
        r = self.r
        self.budget -= 1
        x = r.random()
        m = self.shape == "memory"
        if x < 0.3:
            if r.random() < 0.15:
                self.add(IRSet(self.sc(), r.choice([self.const(), IRGet(self.sc())])))
            else:
                self.add(IRSet(self.sc(), self.bound(self.expr(r.randint(1, 3)))))
        elif x < 0.42:
            p = self.mem(True)
            e = self.expr(r.randint(0, 2))
            self.add(IRSet(p, e if not m else self.bound(e)))
        elif x < 0.55:
            self.rmw()
        elif x < 0.62 and self.arrays:
            self.add(IRSet(self.arr(), self.bound(self.expr(2))))
        elif x < 0.68:
            self.add(IRSet(self.sc(), IRGet(self.mem(False))))
        elif x < 0.74:
            # swap / rotate / parallel copies
            self.feat("swap")
            t = self.tmp()
            a, b = self.sc(), self.sc()
            self.add(IRSet(t, IRGet(a)))
            self.add(IRSet(a, IRGet(b)))
            self.add(IRSet(b, IRGet(t)))
        elif x < 0.80:
            # frontend style: three-address temporaries, possibly used twice
            t = self.tmp()
            self.add(IRSet(t, self.expr(2)))
            self.add(IRSet(self.sc(), self.bound(IRPureInstr(Op[r.choice(BIN)], [IRGet(t), self.expr(1)]))))
            if r.random() < 0.5:
                self.pool.append(IRGet(t))
        elif x < 0.84:
            self.rand_site += 1
            self.feat("random")
            t = self.sc() if r.random() < 0.7 else self.tmp()
            if r.random() < 0.5:
                self.add(IRSet(t, IRInstr(Op.Random, [IRConst(self.rand_site), IRConst(self.rand_site + 2)])))
            else:
                self.add(IRSet(t, IRInstr(Op.RandomInteger, [IRConst(self.rand_site), IRConst(self.rand_site + 5)])))
        elif x < 0.88:
            self.feat("effect-result")
            op = r.choice(["SpawnParticleEffect", "PlayLooped", "PlayLoopedScheduled"])
            n = {"SpawnParticleEffect": 11, "PlayLooped": 1, "PlayLoopedScheduled": 2}[op]
            self.add(IRSet(self.sc() if r.random() < 0.7 else self.tmp(), IRInstr(Op[op], [self.expr(1) for _ in range(n)])))
        elif x < 0.90 and self.ptrs is not None and len(self.ptrs) < 3:
            self.new_ptr()
        elif x < 0.925 or (m and x < 0.95):
            self.op_access()
        else:
            op = r.choice(["DebugLog", "DebugLog", "DebugLog", "Spawn", "ExportValue", "StreamSet", "Play", "StopLooped", "Draw", "AddLifeScheduled", "DebugPause"])
            n = {"DebugLog": 1, "Spawn": r.randint(1, 4), "ExportValue": 2, "StreamSet": 3, "Play": 2, "StopLooped": 1, "Draw": 11, "AddLifeScheduled": 2, "DebugPause": 0}[op]
            self.feat("eff:" + op)
            if r.random() < 0.05:
                self.feat("nonfinite-const")
                a = [IRConst(r.choice([float("inf"), float("-inf")])) for _ in range(n)]
            else:
                a = [self.expr(r.randint(0, 2)) for _ in range(n)]
            self.add(IRInstr(Op[op], a))

    def op_access(self):
        """Reads and writes through GetPointed/SetPointed and GetShifted/SetShifted, combined as x = get; y = f(x); set(y) with things in between."""
        r = self.r
        self.feat("op-access")
        ids = [int(x) for x in self.wblocks]
        tgt = r.choice(ids)
        cell = r.randint(0, 4)
        if r.random() < 0.6:
            kind = "Pointed"
            pb, pi = r.choice(ids), 30 + 2 * r.randint(0, 2)
            off = r.randint(0, cell)
            if r.random() < 0.9:
                self.add(IRSet(BlockPlace(pb, pi, 0), IRConst(tgt)))
                self.add(IRSet(BlockPlace(pb, pi + 1, 0), IRConst(cell - off)))
                self.pcells = [*getattr(self, "pcells", []), (pb, pi)][-3:]
            elif getattr(self, "pcells", None):
                pb, pi = r.choice(self.pcells)

            def addr():
                return [IRConst(pb), IRConst(pi), IRConst(off)]
        else:
            kind = "Shifted"
            st = r.choice([1, 1, 2, 3])
            off = r.randint(0, 2)
            ix = self.index(3) if r.random() < 0.5 else IRConst(r.randint(0, 2))
            if not isinstance(ix, IRConst) and r.random() < 0.7:
                t = self.tmp()
                self.add(IRSet(t, ix))
                ix = IRGet(t)

            def addr():
                return [IRConst(tgt), IRConst(off), ix, IRConst(st)]
        x = r.random()
        if x < 0.2:
            self.add(IRSet(self.sc(), IRInstr(Op["Get" + kind], addr())))
            return
        if x < 0.35:
            self.add(IRInstr(Op["Set" + kind], [*addr(), self.bound(self.expr(1))]))
            return
        op = r.choice(["Add", "Subtract", "Multiply", "Add", "Subtract", "Mod", "Divide", "Rem", "Max", "Power"])
        w = IRConst(1) if r.random() < 0.4 else IRConst(r.choice([2, 3, 0.5])) if op in ("Multiply", "Divide", "Mod", "Rem") or r.random() < 0.3 else IRConst(r.choice([0, 1, 2])) if op == "Power" else self.leaf()

        def between(k):
            for _ in range(k):
                y = r.random()
                if y < 0.35:
                    # the very cells in use
                    c = r.choice([cell, cell, r.randint(0, 4)])
                    self.add(IRSet(BlockPlace(tgt, c, 0), self.const(True)))
                elif y < 0.5 and kind == "Pointed":
                    self.add(IRSet(BlockPlace(pb, pi + 1, 0), IRConst(r.randint(0, 3))))
                elif y < 0.7:
                    self.add(IRInstr(Op.DebugLog, [self.leaf()]))
                elif self.budget > 0:
                    self.stmt()

        get = IRInstr(Op["Get" + kind], addr())
        gaps = [r.choice([0, 0, 0, 1, 2]) for _ in range(3)]
        y = r.random()
        if y < 0.3:
            # the frontend never nests an impure operation in a pure one
            g = self.tmp()
            between(gaps[0])
            self.add(IRSet(g, get))
            self.add(IRInstr(Op["Set" + kind], [*addr(), IRPureInstr(Op[op], [IRGet(g), w])]))
        else:
            g, v = self.tmp(), self.tmp()
            self.add(IRSet(g, get))
            between(gaps[0])
            a = [IRGet(g), w]
            if r.random() < 0.2:
                a.reverse()
            self.add(IRSet(v, IRPureInstr(Op[op], a)))
            between(gaps[1])
            self.add(IRInstr(Op["Set" + kind], [*addr(), IRGet(v)]))
            if r.random() < 0.15:
                self.add(IRInstr(Op.DebugLog, [IRGet(r.choice([g, v]))]))
        between(gaps[2])
        if r.random() < 0.4:
            self.add(IRSet(self.sc(), IRInstr(Op["Get" + kind], addr())))

    def scoped_array(self, depth):
        """An array whose elements are first written at different places, some on some paths only."""
        r = self.r
        self.feat("scoped-array")
        self.k += 1
        n = r.randint(2, 6)
        a = TempBlock(f"sa{self.k}", n)
        flag = self.tmp()
        els = list(range(n))
        r.shuffle(els)
        k = r.randint(1, n - 1)
        first, rest = els[:k], els[k:]
        kind = r.choice(["branch", "branch", "loop", "straight"]) if depth > 0 else "straight"

        def put(e):
            if r.random() < 0.25:
                i = self.tmp()
                self.add(IRSet(i, IRConst(e)))
                self.add(IRSet(BlockPlace(a, i, 0), self.leaf()))
            else:
                self.add(IRSet(BlockPlace(a, e, 0), self.leaf() if r.random() < 0.5 else self.bound(self.expr(1))))

        def show(es):
            for e in es:
                if r.random() < 0.8:
                    self.add(IRInstr(Op.DebugLog, [IRGet(BlockPlace(a, e, 0))]))

        def some():
            y = r.random()
            if y < 0.4:
                self.stmt()
            elif y < 0.6 and depth > 0 and self.budget > 0:
                self.node(depth - 1)

        if kind == "loop":
            # the first iteration writes, the others read
            c, m = self.tmp(), r.randint(2, 3)
            head, w, rd, step, after = (self.block() for _ in range(5))
            self.add(IRSet(c, IRConst(0)))
            if r.random() < 0.5:
                for e in rest:
                    put(e)
                show(rest)
            self.cur.connect_to(head, None)
            sel = self.block()
            head.test = IRPureInstr(Op.Less, [IRGet(c), IRConst(m)])
            head.connect_to(sel, None)
            head.connect_to(after, 0)
            sel.test = IRPureInstr(Op.Equal, [IRGet(c), IRConst(0)])
            sel.connect_to(w, None)
            sel.connect_to(rd, 0)
            self.loops.append((after, step))

            def write():
                for e in first:
                    put(e)
                some()

            def read():
                some()
                show(first)
                if r.random() < 0.4:
                    put(r.choice(first))
            self.branch(w, write, step)
            self.branch(rd, read, step)
            self.loops.pop()
            step.statements.append(IRSet(c, IRPureInstr(Op.Add, [IRGet(c), IRConst(1)])))
            step.connect_to(head, None)
            self.cur = after
            # only if no iteration was cut short are the elements there
            return
        self.add(IRSet(flag, self.cond(1)))
        if kind == "branch":
            t, f, join = self.block(), self.block(), self.block()
            self.cur.test = IRGet(flag)
            arms = [(t, None), (f, 0)]
            if r.random() < 0.5:
                arms.reverse()
            for b, c in arms:
                self.cur.connect_to(b, c)

            def arm():
                for e in first:
                    put(e)
                some()
                if r.random() < 0.3:
                    # one more block on this side
                    nb = self.block()
                    self.cur.connect_to(nb, None)
                    self.cur = nb
                    some()
            dead = self.branch(t, arm, join)
            if r.random() < 0.5:
                dead &= self.branch(f, some, join)
            else:
                dead &= self.branch(f, lambda: None, join)
            self.cur = join
            if dead:
                self.dead = True
                return
            for e in rest:
                put(e)
            some()
            if self.dead:
                return
            t, f, join = self.block(), self.block(), self.block()
            self.cur.test = IRGet(flag)
            self.cur.connect_to(t, None)
            self.cur.connect_to(f, 0)
            dead = self.branch(t, lambda: show(els), join)
            dead &= self.branch(f, lambda: show(rest), join)
            self.cur = join
        else:
            for e in first:
                put(e)
            some()
            if self.dead:
                return
            for e in rest:
                put(e)
            show(els)

    def new_ptr(self):
        r = self.r
        self.k += 1
        b = BlockPlace(TempBlock(f"pb{self.k}", 1), 0, 0)
        i = BlockPlace(TempBlock(f"pi{self.k}", 1), 0, 0)
        ids = [int(x) for x in self.wblocks]
        if len(ids) > 1 and r.random() < 0.5:
            self.add(IRSet(b, IRPureInstr(Op.If, [self.cond(1), IRConst(ids[0]), IRConst(ids[1])])))
        else:
            self.add(IRSet(b, IRConst(r.choice(ids))))
        if r.random() < 0.5:
            self.add(IRSet(i, IRConst(r.randint(0, 4))))
        else:
            self.add(IRSet(i, self.index(4)))
        if self.top:
            self.ptrs.append((b, i))

    def rmw(self):
        r = self.r
        self.feat("rmw")
        x = r.random()
        if x < 0.3:
            p = self.sc()
        elif x < 0.5 and self.arrays:
            p = self.arr()
        else:
            p = self.mem(True)
        op = r.choice(["Add", "Subtract", "Add", "Subtract", "Multiply", "Divide", "Mod", "Rem", "Power", "Max"])
        if op in ("Add", "Subtract"):
            v = IRConst(1) if r.random() < 0.35 else IRPureInstr(Op.Clamp, [self.expr(1), IRConst(-3), IRConst(3)]) if r.random() < 0.5 else self.const()
        elif op == "Multiply":
            v = IRConst(r.choice([-1, 0.5, -0.5, 1, 0]))
        elif op == "Power":
            v = IRConst(r.choice([0, 1, 1, 2]))
        elif op == "Max":
            v = self.expr(1)
        else:
            v = IRConst(r.choice([2, 3, -2, 4, 5, 7]))
        a = [IRGet(p), v]
        if op in ("Add", "Multiply", "Max") and r.random() < 0.3:
            a.reverse()
        if r.random() < 0.15:
            # read through a temporary, something in between
            t = self.tmp()
            self.add(IRSet(t, IRGet(p)))
            if r.random() < 0.5 and self.budget > 0:
                self.stmt()
            a = [IRGet(t) if isinstance(z, IRGet) and z.place is p else z for z in a]
        self.add(IRSet(p, IRPureInstr(Op[op], a)))
        if r.random() < 0.25:
            self.add(IRSet(self.sc(), IRGet(p)))

    # ---- control
    def block(self):
        return BasicBlock()

    def seq(self, depth, n=None):
        r = self.r
        for _ in range(n if n is not None else r.randint(1, 3)):
            if self.budget <= 0 or self.dead:
                return
            self.node(depth)

    def node(self, depth):
        r = self.r
        w = {"mixed": (4, 3, 1.5, 1.5, 1), "pressure": (6, 2, 1, 1, 1), "loops": (3, 2, 0.5, 3, 1.2), "branches": (3, 5, 1, 1, 1),
             "switches": (3, 1.5, 5, 1, 1), "memory": (6, 2, 1, 1.5, 1), "arrays": (6, 2, 1, 2, 1)}[self.shape]
        kind = "block" if depth <= 0 else r.choices(["block", "if", "switch", "loop", "special"], w)[0]
        top, self.top = self.top, self.top and kind == "block"
        if kind == "block":
            for _ in range(r.randint(1, 4)):
                self.stmt()
        else:
            np = len(self.pool)
            getattr(self, "n_" + kind)(depth)
            del np
            # expressions remembered inside are not valid outside when they use temporaries of dead paths;
            # the monitor discards such executions, but keep the rate low
            if r.random() < 0.5:
                self.pool = self.pool[:4]
        self.top = top

    def branch(self, cur, fn, join):
        save = self.cur, self.dead, list(self.pool)
        self.cur, self.dead = cur, False
        fn()
        if not self.dead:
            self.cur.connect_to(join, None)
        d = self.dead
        self.cur, self.dead, self.pool = save
        return d

    def n_if(self, depth):
        r = self.r
        self.feat("if")
        cur = self.cur
        x = r.random()
        cur.test = self.cond(2) if r.random() < 0.85 else self.expr(1)
        join = self.block()
        t, f = self.block(), self.block()
        if x < 0.35:
            # diamond/triangle of pure assignments
            self.feat("pure-diamond")
            places = [self.sc() for _ in range(r.randint(1, 2))]

            def arm():
                for p in places if r.random() < 0.7 else places[:1]:
                    self.add(IRSet(p, self.bound(self.expr(r.randint(0, 2)))))

            tri = r.random() < 0.4
            cur.connect_to(t, None)
            cur.connect_to(join if tri else f, 0)
            self.branch(t, arm, join)
            if not tri:
                self.branch(f, arm, join)
            self.cur = join
            return
        if r.random() < 0.2:
            # inverted encoding: explicit nonzero label rather than 0/default
            k = r.choice([1, 2, -1, 0.5])
            self.feat("label-if")
            cur.connect_to(t, k)
            cur.connect_to(f, None)
        else:
            cur.connect_to(t, None)
            cur.connect_to(f, 0)
        d1 = self.branch(t, lambda: self.seq(depth - 1), join)
        d2 = self.branch(f, (lambda: self.seq(depth - 1)) if r.random() < 0.7 else (lambda: None), join)
        self.cur = join
        self.dead = d1 and d2

    def n_switch(self, depth):
        r = self.r
        self.feat("switch")
        cur = self.cur
        x = r.random()
        m = r.randint(2, 7)
        e = self.expr(2)
        if x < 0.7:
            e = IRPureInstr(Op.Mod, [IRPureInstr(Op.Floor, [IRPureInstr(Op.Abs, [e])]), IRConst(m)])
        cur.test = e
        join = self.block()
        y = r.random()
        if y < 0.4:
            labels = list(range(r.randint(2, m + 1)))
        elif y < 0.55:
            s = r.choice([1, -1, 3, 100])
            labels = [s + i for i in range(r.randint(2, 5))]
        elif y < 0.8:
            labels = r.sample([-3, -1, 0, 1, 2, 3, 5, 0.5, 1.5, 8, 100], r.randint(1, 5))
        else:
            st = r.choice([2, 3, 0.5])
            labels = [i * st for i in range(r.randint(2, 5))]
        targets = []
        dead = []
        for lb in labels:
            if targets and r.random() < 0.25:
                self.feat("shared-case")
                cur.connect_to(r.choice(targets), lb)
            else:
                b = self.block()
                targets.append(b)
                cur.connect_to(b, lb)
        z = r.random()
        if z < 0.7:
            if r.random() < 0.3:
                cur.connect_to(join, None)
                dead.append(False)
            else:
                b = self.block()
                targets.append(b)
                cur.connect_to(b, None)
        else:
            self.feat("no-default")
        const_arms = r.random() < 0.4
        p = self.sc()

        def arm():
            if const_arms:
                self.feat("switch-value")
                self.add(IRSet(p, self.const()))
            else:
                self.seq(depth - 1, r.randint(1, 2))

        for b in targets:
            dead.append(self.branch(b, arm, join))
        self.cur = join
        self.dead = all(dead)

    def n_special(self, depth):
        r = self.r
        x = r.random()
        if r.random() < (0.45 if self.shape == "arrays" else 0.12):
            return self.scoped_array(depth)
        if x < 0.35:
            # equality chain: if x == a: .. elif x == b: ..
            self.feat("eq-chain")
            v = self.tmp()
            self.add(IRSet(v, IRPureInstr(Op.Mod, [IRPureInstr(Op.Floor, [IRPureInstr(Op.Abs, [self.expr(1)])]), IRConst(r.randint(2, 6))])))
            join = self.block()
            keys = r.choice([list(range(r.randint(2, 5))), r.sample([0, 1, 2, 3, 4, 1.5, -1], r.randint(2, 5))])
            if r.random() < 0.15:
                keys.append(keys[0])
            p = self.sc()
            pure = r.random() < 0.4
            alld = []
            for k in keys:
                t, f = self.block(), self.block()
                a = [IRGet(v), IRConst(k)]
                if r.random() < 0.3:
                    a.reverse()
                if r.random() < 0.2:
                    self.cur.test = IRPureInstr(Op.NotEqual, a)
                    self.cur.connect_to(t, 0)
                    self.cur.connect_to(f, None)
                else:
                    self.cur.test = IRPureInstr(Op.Equal, a)
                    self.cur.connect_to(t, None)
                    self.cur.connect_to(f, 0)
                alld.append(self.branch(t, (lambda: self.add(IRSet(p, self.const()))) if pure else (lambda: self.seq(depth - 1, 1)), join))
                self.cur = f
                if r.random() < 0.15:
                    # something between the links of the chain
                    self.stmt()
            if pure:
                self.add(IRSet(p, self.const()))
            elif r.random() < 0.6:
                self.stmt()
            self.cur.connect_to(join, None)
            self.cur = join
        elif x < 0.6:
            # pressure: many values computed, then all used in another order
            self.feat("pressure")
            ts = []
            for _ in range(r.randint(4, int(10 + 10 * self.size))):
                t = self.tmp()
                self.add(IRSet(t, self.bound(self.expr(1))))
                ts.append(t)
                self.budget -= 0.3
            if r.random() < 0.5 and depth > 0:
                self.node(depth - 1)
            if self.dead:
                return
            r.shuffle(ts)
            for t in ts:
                if r.random() < 0.6:
                    self.add(IRInstr(Op.DebugLog, [IRGet(t)]))
                else:
                    self.add(IRSet(self.sc(), self.bound(IRPureInstr(Op[r.choice(BIN)], [IRGet(t), IRGet(self.sc())]))))
        elif x < 0.75 and self.loops:
            # break or continue
            k = r.choice(["break", "continue"])
            self.feat(k)
            tgt = r.choice(self.loops if r.random() < 0.3 else self.loops[-1:])
            t, f = self.block(), self.block()
            self.cur.test = self.cond(1)
            self.cur.connect_to(t, None)
            self.cur.connect_to(f, 0)
            if r.random() < 0.5:
                save = self.cur
                self.cur = t
                self.stmt()
                t = self.cur
                self.cur = save
            t.connect_to(tgt[0] if k == "break" else tgt[1], None)
            self.cur = f
        elif x < 0.9:
            # early return
            self.feat("early-exit")
            t, f = self.block(), self.block()
            self.cur.test = self.cond(1)
            self.cur.connect_to(t, None)
            self.cur.connect_to(f, 0)
            self.cur = t
            self.stmt()
            self.cur.connect_to(self.exit, None)
            self.cur = f
        else:
            # constant-decided branch
            self.feat("const-branch")
            v = self.tmp()
            self.add(IRSet(v, self.const()))
            t, f, join = self.block(), self.block(), self.block()
            self.cur.test = IRPureInstr(Op[r.choice(CMP)], [IRGet(v), self.const()])
            self.cur.connect_to(t, None)
            self.cur.connect_to(f, 0)
            a = self.branch(t, lambda: self.seq(depth - 1, 1), join)
            b = self.branch(f, lambda: self.seq(depth - 1, 1), join)
            self.cur = join
            self.dead = a and b

    def n_loop(self, depth):
        r = self.r
        self.feat("loop")
        if len(self.loops) >= 2:
            self.feat("loop-nest3")
        c = self.tmp()
        n = r.randint(1, 6 if len(self.loops) < 2 else 3)
        start = r.choice([0, 0, 0, 1, n])
        step = r.choice([1, 1, 1, 2])
        down = r.random() < 0.15
        self.add(IRSet(c, IRConst(n if down else start)))
        head, body, step_b, after = self.block(), self.block(), self.block(), self.block()
        self.cur.connect_to(head, None)
        x = r.random()
        if down:
            head.test = IRGet(c) if step == 1 and r.random() < 0.5 else IRPureInstr(Op.Greater, [IRGet(c), IRConst(0)])
        elif x < 0.6:
            head.test = IRPureInstr(Op.Less, [IRGet(c), IRConst(n)])
        else:
            # bounded by the counter and by something else
            self.feat("while")
            if r.random() < 0.5:
                t = self.block()
                head.test = IRPureInstr(Op.Less, [IRGet(c), IRConst(n)])
                head.connect_to(after, 0)
                head.connect_to(t, None)
                self.cur = t
                t.test = self.cond(1)
                head2 = t
            else:
                head.test = IRPureInstr(Op.And, [IRPureInstr(Op.Less, [IRGet(c), IRConst(n)]), self.cond(0)])
                head2 = head
            head2.connect_to(body, None)
            head2.connect_to(after, 0)
        if not head.outgoing:
            head.connect_to(body, None)
            head.connect_to(after, 0)
        self.loops.append((after, step_b))
        self.counters.append((c, n + 2))
        if r.random() < 0.4:
            # a value carried around the loop by rotation
            self.feat("carried")
            a, b = self.sc(), self.sc()
            self.cur = body
            t = self.tmp()
            self.add(IRSet(t, IRGet(a)))
            self.add(IRSet(a, self.bound(IRPureInstr(Op[r.choice(BIN)], [IRGet(a), IRGet(b)]))))
            self.add(IRSet(b, IRGet(t)))
        d = self.branch(body, lambda: self.seq(depth - 1), step_b)
        del d
        self.counters.pop()
        self.loops.pop()
        step_b.statements.append(IRSet(c, IRPureInstr(Op.Subtract if down else Op.Add, [IRGet(c), IRConst(1 if down else step)])))
        step_b.connect_to(head, None)
        self.cur = after
        if r.random() < 0.3:
            self.pool.append(IRGet(c))

    def entry_loop(self):
        """A loop whose header is the entry block itself (the usual preheader is missing)."""
        r = self.r
        self.feat("entry-loop")
        cell = BlockPlace(r.choice(self.wblocks), 7, 0)
        head = self.cur
        once = self.tmp()
        for i in range(self.nsc):
            if r.random() < 0.5:
                self.add(IRSet(self.sc(i), IRGet(BlockPlace(r.choice(self.wblocks), r.randint(0, 5), 0)) if r.random() < 0.7 else self.const()))
        k = r.randint(1, 3)
        if r.random() < 0.5:
            # written on some iterations only
            self.feat("written-once")
            head.test = IRPureInstr(Op.Less, [IRGet(cell), IRConst(1)])
            w, join, other = self.block(), self.block(), self.block()
            head.connect_to(w, None)
            head.connect_to(other, 0)
            self.branch(w, lambda: self.add(IRSet(once, self.expr(2))), join)
            self.branch(other, (lambda: self.seq(1, 1)) if r.random() < 0.6 else (lambda: None), join)
            self.cur = join
            self.add(IRInstr(Op.DebugLog, [IRGet(once)]))
        d = r.random()
        if d < 0.5:
            self.seq(1, r.randint(0, 2))
        if r.random() < 0.9:
            self.add(IRSet(cell, IRPureInstr(Op.Add, [IRPureInstr(Op.Max, [IRGet(cell), IRConst(0)]), IRConst(1)])))
            test = IRPureInstr(Op.Less, [IRGet(cell), IRConst(k)])
        else:
            test = IRPureInstr(Op.Less, [IRConst(3), IRConst(k)])
        after = self.block()
        if r.random() < 0.3:
            latch = self.block()
            self.cur.connect_to(latch, None)
            self.cur = latch
        self.cur.test = test
        self.cur.connect_to(head, None)
        self.cur.connect_to(after, 0)
        self.cur = after
        if r.random() < 0.5:
            # a temporary nothing writes, read where execution does not get to
            self.feat("never-written")
            never, dead, join = self.tmp(), self.block(), self.block()
            after.test = IRPureInstr(Op.Less, [IRPureInstr(Op.Abs, [IRGet(cell)]), IRConst(-1)])
            after.connect_to(dead, None)
            after.connect_to(join, 0)
            self.branch(dead, lambda: self.add(IRInstr(Op.DebugLog, [IRGet(never)])), join)
            self.cur = join

    def build(self):
        r = self.r
        self.ptrs = []
        self.top = True
        self.dead = False
        self.depth_mem = 0
        entry = self.cur = self.block()
        self.exit = self.block()
        if r.random() < 0.2:
            self.entry_loop()
        for i in range(self.nsc):
            if r.random() < 0.985:
                x = r.random()
                v = self.const() if x < 0.5 else IRGet(BlockPlace(r.choice(self.wblocks + self.rblocks), r.randint(0, 5), 0))
                self.add(IRSet(self.sc(i), v))
        for a in self.arrays:
            if a.size > 8 and r.random() < 0.1:
                continue
            for k in range(a.size):
                if r.random() < 0.995:
                    self.add(IRSet(BlockPlace(a, k, 0), self.const()))
        depth = r.choice([1, 2, 2, 3, 3, 4])
        while self.budget > 0 and not self.dead:
            self.node(depth)
            if r.random() < 0.06:
                break
        if not self.dead:
            self.cur.connect_to(self.exit, None)
        self.cur = self.exit
        # observe the scalars at the end
        for i in range(self.nsc):
            if r.random() < 0.7:
                self.add(IRInstr(Op.DebugLog, [IRGet(self.sc(i))]))
        if r.random() < 0.3:
            self.add(IRInstr(Op.Break, [IRConst(1), IRGet(self.sc())]))
        self.p.entry = entry
        self.p.mode = self.mode
        self.p.callback = self.callback
        return self.p


def gen(seed, size=1.0, shape=None, modes=True):
    return G(seed, size, shape, modes).build()
