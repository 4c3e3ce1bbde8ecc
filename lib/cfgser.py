"""CFG <-> JSON, pretty text, and a greedy shrinker over the JSON form."""
import copy
import math

from sonolus.backend.ir import IRConst, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.mode import Mode
from sonolus.backend.ops import Op
from sonolus.backend.optimize.flow import BasicBlock, traverse_cfg_preorder
from sonolus.backend.place import BlockPlace, SSAPlace, TempBlock


def _num(x):
    if isinstance(x, float) and not math.isfinite(x):
        return {"f": repr(x)}
    return x


def _ix(p):
    cn = type(p).__name__
    if cn == "BlockPlace":
        return ["p", *place(p)]
    if cn == "SSAPlace":
        return ["ssa", p.name, p.num]
    if isinstance(p, (int, float)):
        return p
    return expr(p)


def place(p):
    b = p.block
    if type(b).__name__ == "TempBlock":
        b = ["t", b.name, b.size]
    elif hasattr(b, "readable") and hasattr(b, "name"):
        b = ["b", int(b), type(b).__name__, b.name]
    elif isinstance(b, int):
        b = int(b)
    else:
        b = _ix(b)
    return [b, _ix(p.index), p.offset]


def expr(e):
    cn = type(e).__name__
    if cn == "IRConst":
        return ["c", _num(e.value)]
    if cn == "IRGet":
        return ["g", *(place(e.place) if type(e.place).__name__ == "BlockPlace" else ["ssa", e.place.name, e.place.num])]
    if cn == "IRSet":
        return ["set", (place(e.place) if type(e.place).__name__ == "BlockPlace" else ["ssa", e.place.name, e.place.num]), expr(e.value)]
    if cn in ("IRPureInstr", "IRInstr"):
        return ["i" if cn == "IRPureInstr" else "e", e.op.name, *(expr(a) for a in e.args)]
    if cn in ("BlockPlace", "SSAPlace"):
        return _ix(e)
    raise TypeError(cn)


def dump(entry, mode=None, callback=None):
    bs = list(traverse_cfg_preorder(entry))
    ix = {b: i for i, b in enumerate(bs)}
    key = lambda e: (e.cond is None, e.cond if e.cond is not None else 0)
    return {"mode": mode.name if mode else None, "callback": callback,
            "blocks": [{"s": [expr(s) for s in b.statements], "t": expr(b.test),
                        "o": [[_num(e.cond) if e.cond is not None else None, ix[e.dst]] for e in sorted(b.outgoing, key=key)],
                        **({"phi": len(b.phis)} if b.phis else {})} for b in bs]}


_BLK = {}
for _m in Mode:
    for _b in _m.blocks:
        _BLK[(type(_b).__name__, _b.name)] = _b


def u_num(x):
    return float(x["f"]) if isinstance(x, dict) else x


def u_ix(p):
    if isinstance(p, list):
        if p[0] == "p":
            return u_place(p[1:])
        return u_expr(p)
    return p


def u_place(p):
    b = p[0]
    if isinstance(b, list):
        if b[0] == "t":
            b = TempBlock(b[1], b[2])
        elif b[0] == "b":
            b = _BLK.get((b[2], b[3]), b[1])
        else:
            b = u_ix(b)
    return BlockPlace(b, u_ix(p[1]), p[2])


def u_expr(e):
    k = e[0]
    if k == "c":
        return IRConst(u_num(e[1]))
    if k == "g":
        return IRGet(u_place(e[1:]))
    if k == "set":
        return IRSet(u_place(e[1]), u_expr(e[2]))
    if k == "i":
        return IRPureInstr(Op[e[1]], [u_expr(a) for a in e[2:]])
    if k == "e":
        return IRInstr(Op[e[1]], [u_expr(a) for a in e[2:]])
    raise TypeError(k)


def load(d):
    bs = [BasicBlock() for _ in d["blocks"]]
    for b, j in zip(bs, d["blocks"]):
        b.statements = [u_expr(s) for s in j["s"]]
        b.test = u_expr(j["t"])
        for c, t in j["o"]:
            b.connect_to(bs[t], None if c is None else u_num(c))
    mode = Mode[d["mode"]] if d.get("mode") else None
    return bs[0], mode, d.get("callback")


def text(d):
    entry, mode, cb = load(d)
    from sonolus.backend.optimize.flow import cfg_to_text
    return f"mode={d['mode']} callback={cb}\n" + cfg_to_text(entry)


def _subs(e):
    """Smaller replacements of an expression."""
    if e[0] in ("i", "e"):
        for a in e[2:]:
            if isinstance(a, list) and a[0] in ("c", "g", "i"):
                yield a
    if e[0] != "c":
        yield ["c", 0]
        yield ["c", 1]


def _walk(e, path=()):
    """Paths of all expression positions inside e (a nested list)."""
    if isinstance(e, list) and e and e[0] in ("c", "g", "i", "e"):
        yield path
    if isinstance(e, list):
        for i, x in enumerate(e):
            if isinstance(x, list):
                yield from _walk(x, (*path, i))


def _get(e, path):
    for i in path:
        e = e[i]
    return e


def shrink(d, bad, tries=3000):
    """Greedy: bad(d) -> still shows the failure. d is never modified."""
    d = copy.deepcopy(d)
    n = [tries]

    def ok(c):
        if n[0] <= 0:
            return False
        n[0] -= 1
        try:
            return bad(c)
        except Exception:
            return False

    changed = True
    while changed and n[0] > 0:
        changed = False
        # drop edges / straighten
        for bi in range(len(d["blocks"])):
            b = d["blocks"][bi] if bi < len(d["blocks"]) else None
            if b is None:
                break
            if len(b["o"]) > 1:
                for oi in range(len(b["o"])):
                    c = copy.deepcopy(d)
                    c["blocks"][bi]["o"] = [[None, b["o"][oi][1]]]
                    c["blocks"][bi]["t"] = ["c", 0]
                    c = _gc(c)
                    if ok(c):
                        d, changed = c, True
                        break
                    if len(b["o"]) > 2:
                        c = copy.deepcopy(d)
                        del c["blocks"][bi]["o"][oi]
                        c = _gc(c)
                        if ok(c):
                            d, changed = c, True
                            break
            elif len(b["o"]) == 1 and b["o"][0][1] != bi:
                # merge an empty forwarding block into its predecessors
                t = b["o"][0][1]
                if not b["s"] and b["o"][0][0] is None and bi != 0:
                    c = copy.deepcopy(d)
                    for q in c["blocks"]:
                        q["o"] = [[k, t if x == bi else x] for k, x in q["o"]]
                    c = _gc(c)
                    if ok(c):
                        d, changed = c, True
                else:
                    preds = [i for i, q in enumerate(d["blocks"]) for k, x in q["o"] if x == t]
                    if len(preds) == 1 and t != 0:
                        c = copy.deepcopy(d)
                        c["blocks"][bi]["s"] += c["blocks"][t]["s"]
                        c["blocks"][bi]["t"] = c["blocks"][t]["t"]
                        c["blocks"][bi]["o"] = c["blocks"][t]["o"]
                        c = _gc(c)
                        if ok(c):
                            d, changed = c, True
        # drop statements (chunks then singles)
        for bi in range(len(d["blocks"])):
            size = max(1, len(d["blocks"][bi]["s"]) // 2)
            while size >= 1:
                i = 0
                while i < len(d["blocks"][bi]["s"]):
                    c = copy.deepcopy(d)
                    del c["blocks"][bi]["s"][i:i + size]
                    if ok(c):
                        d, changed = c, True
                    else:
                        i += size
                size //= 2
        # simplify expressions
        for bi in range(len(d["blocks"])):
            for key in ("s", "t"):
                paths = sorted(_walk([d["blocks"][bi][key]]) if key == "t" else _walk(d["blocks"][bi][key]), key=len)
                for p in paths:
                    root = d["blocks"][bi]
                    try:
                        cur = _get([root[key]] if key == "t" else root[key], p)
                    except (IndexError, TypeError):
                        continue
                    if not isinstance(cur, list) or cur[0] == "set" or cur[0] == "e":
                        continue
                    if cur == ["c", 0] or cur == ["c", 1]:
                        continue
                    for s in _subs(cur):
                        c = copy.deepcopy(d)
                        holder = [c["blocks"][bi][key]] if key == "t" else c["blocks"][bi][key]
                        tgt = _get(holder, p[:-1])
                        tgt[p[-1]] = s
                        if key == "t":
                            c["blocks"][bi]["t"] = holder[0]
                        if ok(c):
                            d, changed = c, True
                            break
    return d


def _gc(d):
    """Renumber, dropping unreachable blocks."""
    seen, order = {0}, [0]
    for i in order:
        for _, t in d["blocks"][i]["o"]:
            if t not in seen:
                seen.add(t)
                order.append(t)
    m = {o: n for n, o in enumerate(order)}
    return dict(d, blocks=[dict(d["blocks"][o], o=[[k, m[t]] for k, t in d["blocks"][o]["o"]]) for o in order])
