"""Programs no frontend would build: copies of random programs with parts replaced, removed, repeated or nested
beyond measure. Every function returns (entry, mode, callback) and a description, deterministically from a seed."""
import copy
import random

import cfggen
from sonolus.backend.blocks import PlayBlock
from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock, FlowEdge, traverse_cfg_preorder
from sonolus.backend.place import BlockPlace, SSAPlace, TempBlock

NUMBERS = [0, 1, -1, 2, 0.5, -0.0, 1e308, -1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 2**31 - 1, 2**31, -2**31, -2**31 - 1,
           2**32, 2**52, 2**53 + 1, 2**63 - 1, 2**63, -2**63 - 1, 2**64, 10**30, 10**400, -(10**400), 2147483647.5, -2147483648.5, 4294967296.0, 1e19, 1e300, 65535, 65536, 32767, 32768]


class Odd:
    """An object that is not anything."""


class BadFloat(float):
    def __float__(self):
        raise RuntimeError("no value")

    def __eq__(self, o):
        raise RuntimeError("no comparison")

    def __hash__(self):
        return 1


class Growing(list):
    """A list that grows while it is walked."""

    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i < 50:
                self.append(x)
            yield x


class Shrinking(list):
    """A list that empties itself while it is walked (its length is read first)."""

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        self.clear()
        return x

    def __iter__(self):
        x = list(list.__iter__(self))
        self.clear()
        return iter(x)


def _pure(r):
    return r.choice([o for o in Op if o.pure])


def _any(r):
    return r.choice(list(Op))


def expr(r, d=0):
    """A random expression, legal or not."""
    k = r.random()
    if d > 3 or k < 0.3:
        return r.choice([lambda: IRConst(r.choice(NUMBERS)), lambda: IRGet(place(r, d + 1)), lambda: r.choice(NUMBERS), lambda: place(r, d + 1)])()
    if k < 0.65:
        return IRPureInstr(_pure(r), [expr(r, d + 1) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 5, 9]))])
    if k < 0.8:
        return IRInstr(_any(r), [expr(r, d + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 12]))])
    if k < 0.9:
        return junk(r)
    return IRGet(place(r, d + 1))


def junk(r):
    return r.choice([None, "x", True, False, 1j, [], (), {}, object(), Odd(), Op.Add, b"", BadFloat(1.5), IRSet(BlockPlace(20, 0), IRConst(1)), IRConst(None),
                     IRConst("a"), IRConst(True), IRConst(BadFloat(2)), SSAPlace("v", 1), TempBlock("t", 1), PlayBlock.EntityMemory, BasicBlock(), NotImplemented, Odd, int])


def place(r, d=0):
    b = r.choice([lambda: r.choice([20, 21, 2000, 1001, 4000, 10000, 10000.0, 20.5, -1]), lambda: TempBlock(r.choice(["a", "b", "", None, 3, ("x",)]), r.choice([0, 1, 1, 2, 7, 4096, 5000, -1, 2**31 - 1, 2**31, 2**40, 1.5, None, True])),
                  lambda: r.choice(list(PlayBlock)), lambda: r.choice(NUMBERS), lambda: expr(r, d + 1), lambda: junk(r)])
    i = r.choice([lambda: r.choice([0, 1, 2, 5]), lambda: r.choice(NUMBERS), lambda: expr(r, d + 1), lambda: IRConst(r.choice(NUMBERS)), lambda: junk(r)])
    o = r.choice([lambda: 0, lambda: 0, lambda: r.choice(NUMBERS), lambda: junk(r)])
    try:
        return BlockPlace(b(), i(), o())
    except (TypeError, RuntimeError):
        return BlockPlace(20, 0)  # its parts have no hash


def _nodes(entry):
    out, seen = [], set()
    stack = []
    for b in traverse_cfg_preorder(entry):
        out.append(b)
        stack += b.statements
        stack.append(b.test)
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, (IRPureInstr, IRInstr)):
            out.append(n)
            stack += list(n.args)
        elif isinstance(n, IRSet):
            out.append(n)
            stack += [n.place, n.value]
        elif isinstance(n, IRGet):
            out.append(n)
            stack.append(n.place)
        elif isinstance(n, BlockPlace):
            out.append(n)
            stack += [n.block, n.index]
        elif isinstance(n, IRConst):
            out.append(n)
    return out


def _edit(r, n, blocks):
    if isinstance(n, (IRPureInstr, IRInstr)):
        n.args = list(n.args)
        k = r.randrange(9)
        if k == 0 and n.args:
            n.args.pop(r.randrange(len(n.args)))
        elif k == 1:
            n.args.insert(r.randrange(len(n.args) + 1), expr(r))
        elif k == 2 and n.args:
            n.args[r.randrange(len(n.args))] = expr(r)
        elif k == 3 and n.args:
            n.args[r.randrange(len(n.args))] = junk(r)
        elif k == 4:
            n.op = r.choice([_any(r), _any(r), None, "Add", 3])
        elif k == 5:
            n.args = []
        elif k == 6:
            n.args = r.choice([tuple, Growing, Shrinking, iter])(n.args)
        elif k == 7:
            n.args = n.args * r.choice([2, 5, 40])
        else:
            n.args = r.choice([None, 5, "ab", {1: 2}, object()])
        return "args"
    if isinstance(n, IRSet):
        k = r.randrange(4)
        if k == 0:
            n.place = place(r)
        elif k == 1:
            n.value = expr(r)
        elif k == 2:
            n.value = junk(r)
        else:
            n.place = r.choice([junk(r), SSAPlace("v", 3), TempBlock("q", 1)])
        return "set"
    if isinstance(n, IRGet):
        n.place = r.choice([place(r), junk(r)])
        return "get"
    if isinstance(n, BlockPlace):
        k = r.randrange(4)
        try:
            if k == 0:
                n.block = place(r).block
            elif k == 1:
                n.index = place(r).index
            elif k == 2:
                n.offset = r.choice(NUMBERS + [junk(r)])
            else:
                n.block = TempBlock(r.choice(["a", "b"]), r.choice([0, 1, 2, 9]))
        except AttributeError:
            return "frozen"
        return "place"
    if isinstance(n, IRConst):
        if type(n.value) is int and -5 <= n.value < 257:
            return "shared"
        n.value = r.choice(NUMBERS + [junk(r)])
        return "const"
    k = r.randrange(12)
    if k == 0:
        n.test = expr(r)
    elif k == 1:
        n.test = junk(r)
    elif k == 2:
        n.statements = list(n.statements) + [r.choice([expr(r), junk(r), IRSet(place(r), expr(r)), IRConst(1)])]
    elif k == 3:
        n.statements = r.choice([tuple, Growing, Shrinking, iter])(n.statements)
    elif k == 4:
        e = FlowEdge(n, r.choice(blocks), r.choice(NUMBERS + [None, None, junk(r)]))
        n.outgoing.add(e)
        if r.random() < 0.5:
            e.dst.incoming.add(e)
    elif k == 5 and n.outgoing:
        r.choice(sorted(n.outgoing, key=lambda e: str(e.cond))).cond = r.choice(NUMBERS + [None, junk(r)])
    elif k == 6 and n.outgoing:
        r.choice(sorted(n.outgoing, key=lambda e: str(e.cond))).dst = r.choice(blocks + [None, BasicBlock(), 5])
    elif k == 7 and n.outgoing:
        r.choice(sorted(n.outgoing, key=lambda e: str(e.cond))).src = r.choice(blocks + [None, BasicBlock()])
    elif k == 8:
        n.incoming = set()
    elif k == 9:
        n.phis = r.choice([{SSAPlace("v", 1): {n: SSAPlace("v", 2)}}, {}, None, [1]])
    elif k == 10:
        n.outgoing = r.choice([set(), None, [1], {1}, list(n.outgoing), list(n.outgoing) * 2])
    else:
        n.statements = r.choice([None, 4, "ab", [], n.statements[::-1], list(n.statements) * 30])
    return "block"


def malformed(seed):
    r = random.Random(f"malformed{seed}")
    p = cfggen.gen(r.randrange(10**9), r.choice([0.3, 0.6, 1.0]))
    entry = copy.deepcopy(p.entry) if r.random() < 0.5 else p.entry
    ns = _nodes(entry)
    blocks = [n for n in ns if isinstance(n, BasicBlock)]
    kinds = [_edit(r, r.choice(blocks) if r.random() < 0.3 else r.choice(ns), blocks) for _ in range(r.choice([1, 1, 1, 2, 3, 6]))]
    if r.random() < 0.02:
        # an expression that contains itself
        x = IRPureInstr(Op.Add, [IRConst(1), IRConst(2)])
        y = r.choice([x, IRPureInstr(Op.Negate, [x]), BlockPlace(20, x), IRGet(BlockPlace(x, 0))])
        x.args = [y, IRConst(1)]
        blocks[0].statements = [*list(blocks[0].statements or []), IRSet(BlockPlace(20, 0), x)] if isinstance(blocks[0].statements, list) else [IRSet(BlockPlace(20, 0), x)]
        kinds.append("cycle")
    mode = r.choice([p.mode, None, p.mode, "x", Odd()])if r.random() < 0.1 else p.mode
    cb = r.choice([None, 5, "none", Odd()]) if r.random() < 0.1 else p.callback
    return entry, mode, cb, kinds


def g(b, i):
    return IRGet(BlockPlace(b, i))


def put(i, v):
    return IRSet(BlockPlace(20, i), v)


def join(a, b, c=None):
    e = FlowEdge(a, b, c)
    a.outgoing.add(e)
    b.incoming.add(e)


def extreme(kind, n, r):
    """A legal program of an extreme shape."""
    b = BasicBlock()
    t = TempBlock("t", 1)
    if kind in ("nested", "negated", "nary-nested"):
        e = g(20, 0)
        for i in range(n):
            e = (IRPureInstr(Op.Add, [e, g(20, 1)]) if kind == "nested" else IRPureInstr(Op.Negate, [e]) if kind == "negated"
                 else IRPureInstr(Op.Add, [IRConst(i), e, IRConst(i + 1)]))
        b.statements = [put(2, e)]
        if r.random() < 0.5:
            b.statements, b.test = [], e
    elif kind == "calls":
        e = IRConst(1)
        for i in range(n):
            e = IRInstr(Op.DebugLog, [e])
        b.statements = [e]
    elif kind == "pointers":
        p = BlockPlace(20, 0)
        for i in range(n):
            p = BlockPlace(20, p) if r.random() < 0.7 else BlockPlace(p, 3, 1)
        b.statements = [put(2, IRGet(p))] if r.random() < 0.5 else [IRSet(p, IRConst(1))]
    elif kind == "operands":
        b.statements = [put(0, IRPureInstr(r.choice([Op.Add, Op.Multiply, Op.And, Op.Max, Op.Power]), [g(20, i % 50) for i in range(n)])),
                        IRInstr(Op.DebugLog if r.random() < 0.5 else Op.Spawn, [g(20, i % 50) for i in range(n)])]
    elif kind == "chain":
        st = [IRSet(BlockPlace(t, 0), g(20, 0))]
        for i in range(n):
            st.append(IRSet(BlockPlace(t, 0), IRPureInstr(r.choice([Op.Divide, Op.Add]), [g2(t), g(20, i + 3)])))
        b.statements = [*st, put(2, g2(t))]
    elif kind == "steps":
        st = []
        for i in range(n):
            st.append(IRSet(BlockPlace(TempBlock(f"t{i}", 1), 0), IRPureInstr(Op.Subtract, [g2(TempBlock(f"t{i - 1}", 1)) if i else g(20, 0), g(20, i % 7 + 3)])))
        b.statements = [*st, put(2, g2(TempBlock(f"t{n - 1}", 1)))]
    elif kind == "temps":
        b.statements = [IRSet(BlockPlace(TempBlock(f"t{i}", 1), 0), g(20, i)) for i in range(n)] + [put(i, g2(TempBlock(f"t{i}", 1))) for i in range(n)]
    elif kind == "arrays":
        b.statements = [IRSet(BlockPlace(TempBlock(f"a{i % 7}", 9), g(20, i % 5)), g(20, i)) for i in range(n)] + [put(i, IRGet(BlockPlace(TempBlock(f"a{i % 7}", 9), g(20, 3)))) for i in range(n)]
    elif kind == "constants":
        b.statements = [put(i % 100, IRConst(i * 0.37)) for i in range(n)]
    elif kind == "places":
        b.statements = [put(i, g(21, n - i)) for i in range(n)]
    elif kind == "line":
        bs = [BasicBlock(statements=[put(i % 9, g(20, i % 5))]) for i in range(n)]
        for x, y in zip(bs, bs[1:]):
            join(x, y)
        return bs[0]
    elif kind == "ladder":
        bs = [BasicBlock(statements=[put(i % 9, IRConst(i)), IRSet(BlockPlace(t, 0), IRConst(i))], test=g(20, i)) for i in range(n)]
        for i, x in enumerate(bs[:-1]):
            join(x, bs[i + 1], 0)
            join(x, bs[min(i + 2, n - 1)])
        bs[-1].statements.append(put(50, g2(t)))
        return bs[0]
    elif kind == "switch":
        end = BasicBlock(statements=[put(1, g2(t))])
        b.test = g(20, 0)
        b.statements = [IRSet(BlockPlace(t, 0), IRConst(3))]
        for i in range(n):
            x = BasicBlock(statements=[IRSet(BlockPlace(t, 0), IRConst(i * 3))])
            join(b, x, r.choice([i, i, i * 2 + 0.5]))
            join(x, end)
        join(b, end)
    elif kind == "compare-chain":
        end = BasicBlock(statements=[put(1, g2(t))])
        cur = b
        for i in range(n):
            cur.statements = [IRSet(BlockPlace(t, 0), IRConst(i))] if i == 0 else []
            x = BasicBlock(statements=[IRSet(BlockPlace(t, 0), IRConst(i * 3))])
            nxt = BasicBlock()
            cur.test = IRPureInstr(Op.Equal, [g(20, 0), IRConst(i)])
            join(cur, nxt, 0)
            join(cur, x)
            join(x, end)
            cur = nxt
        join(cur, end)
    elif kind == "loops":
        hs = [BasicBlock(test=g(20, i)) for i in range(n)]
        ex = [BasicBlock(statements=[put(i, IRPureInstr(Op.Add, [g(20, i), IRConst(1)]))]) for i in range(n)]
        for i in range(n):
            join(hs[i], hs[i + 1] if i + 1 < n else hs[i], 0)
            join(hs[i], ex[i])
            if i:
                join(ex[i], hs[i - 1])
        return hs[0]
    elif kind == "sequence":
        cur = b
        b.statements = [IRSet(BlockPlace(t, 0), g(20, 9))]
        for i in range(n):
            h, body, nxt = BasicBlock(test=g(20, i % 30)), BasicBlock(), BasicBlock()
            body.statements = [IRSet(BlockPlace(t, 0), IRPureInstr(Op.Add, [g2(t), g(20, 3)])), put(i % 30, g2(t))]
            join(cur, h)
            join(h, nxt, 0)
            join(h, body)
            join(body, h)
            cur = nxt
        cur.statements = [put(0, g2(t))]
    elif kind == "many-phis":
        m = max(2, int(n ** 0.5))
        b.statements = [IRSet(BlockPlace(TempBlock(f"t{i}", 1), 0), g(20, i)) for i in range(m)]
        cur = b
        for k in range(m):
            x, y, z = BasicBlock(), BasicBlock(), BasicBlock()
            cur.test = g(20, k)
            x.statements = [IRSet(BlockPlace(TempBlock(f"t{i}", 1), 0), g2(TempBlock(f"t{(i + 1) % m}", 1))) for i in range(m)]
            join(cur, x, 0)
            join(cur, y)
            join(x, z)
            join(y, z)
            cur = z
        cur.statements = [put(i, g2(TempBlock(f"t{i}", 1))) for i in range(m)]
    elif kind == "offsets":
        ks = [2**31 - 1, -2**31, 2**31 - 2, 2**30, -2**30, 2**24]
        b.statements = []
        for _ in range(min(n, 60)):
            a, c = r.choice(ks), r.choice(ks)
            b.statements.append(IRSet(BlockPlace(r.choice([20, a, g(20, 0)]), r.choice([a, g(20, 1), IRPureInstr(Op.Add, [g(20, 1), IRConst(a)]), IRPureInstr(Op.Subtract, [g(20, 1), IRConst(a)])]),
                                                 r.choice([0, c])), IRPureInstr(r.choice([Op.Add, Op.Multiply, Op.Subtract]), [IRConst(a), r.choice([IRConst(c), g(20, 4)])])))
    elif kind == "sizes":
        for i in range(min(n, 12)):
            tt = TempBlock(f"a{i}", r.choice([0, 1, 2, 100, 4095, 4096, 4097, 2**16, 2**30, 2**31 - 1]))
            b.statements.append(IRSet(BlockPlace(tt, r.choice([0, 5, g(20, 0), 2**31 - 1, -2**31, tt.size - 1]), r.choice([0, 2**31 - 1, -1])), g(20, 1)))
            b.statements.append(put(i, IRGet(BlockPlace(tt, r.choice([0, g(20, 0), 2**31 - 1])))))
    elif kind == "edge-values":
        b.test = r.choice([g(20, 0), IRPureInstr(Op.Floor, [g(20, 0)])])
        for c in r.sample([2**31 - 1, 2**31, -2**31, -2**31 - 1, 1e300, -1e300, 2**53, 1e-300, 0, 0.5, 1, 2, 3, 2**31 + 1, 2**31 + 2, 5e-324, 2**63], 9):
            join(b, BasicBlock(statements=[put(1, IRConst(c))]), c)
        join(b, BasicBlock(statements=[put(1, IRConst(7))]))
    else:
        raise ValueError(kind)
    return b


def g2(t):
    return IRGet(BlockPlace(t, 0))


KINDS = ["nested", "negated", "nary-nested", "calls", "pointers", "operands", "chain", "steps", "temps", "arrays", "constants", "places", "line", "ladder", "switch",
         "compare-chain", "loops", "sequence", "many-phis", "offsets", "sizes", "edge-values"]
