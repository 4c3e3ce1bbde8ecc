"""Generated programs over the numeric and geometric helpers, with the values their definitions give."""
import math
import random

import geomodel as g
from geomodel import Ambiguous, X

HEAD = '''import math
import random
from math import acos, asin, atan, atan2, ceil, cos, cosh, floor, log, pi, sin, sinh, sqrt, tan, tanh, trunc
from sonolus.script.array import Array
from sonolus.script.debug import debug_log
from sonolus.script.easing import *
from sonolus.script.bucket import JudgmentWindow
from sonolus.script.interval import Interval, clamp, interp, interp_clamped, lerp, lerp_clamped, remap, remap_clamped, unlerp, unlerp_clamped
from sonolus.script.numtools import make_comparable_float, quantize_to_step
from sonolus.script.quad import Quad, Rect, flatten_quad
from sonolus.script.transform import InvertibleTransform2d, Transform2d, perspective_approach
from sonolus.script.vec import Vec2, angle_diff, pnpoly, signed_angle_diff
from vin import con, inp

def oN(v):
    debug_log(v)
def oV(v):
    debug_log(v.x)
    debug_log(v.y)
def oI(v):
    debug_log(v.start)
    debug_log(v.end)
def oR(v):
    debug_log(v.t)
    debug_log(v.r)
    debug_log(v.b)
    debug_log(v.l)
def oQ(v):
    oV(v.bl)
    oV(v.tl)
    oV(v.tr)
    oV(v.br)
def oT(v):
    oV(v.transform_vec(Vec2(0, 0)))
    oV(v.transform_vec(Vec2(0.25, 0)))
    oV(v.transform_vec(Vec2(0, 0.25)))
    oV(v.transform_vec(Vec2(-0.25, 0.125)))
def oJ(v):
    oT(v.forward)
    w = v.transform_vec(Vec2(0.25, -0.5))
    oV(w)
    oV(v.inverse_transform_vec(w))
'''


def flat(t, v):
    """The logged components of a value."""
    if t == "N":
        return [v]
    if t in "VIR":
        return list(v)
    if t == "Q":
        return [c for p in v for c in p]
    if t == "T":
        z = g.x
        return [c for p in ((0, 0), (0.25, 0), (0, 0.25), (-0.25, 0.125)) for c in g.apply(v, (z(p[0]), z(p[1])))]
    if t == "J":
        p = (g.x(0.25), g.x(-0.5))
        w = g.apply(v[0], p)
        back = g.apply(v[1], w)
        if any(abs(a.v - b.v) > 1e-6 for a, b in zip(p, back)):
            raise AssertionError("the model's inverse does not undo its transform")
        return flat("T", v[0]) + list(w) + list(p)
    raise AssertionError(t)


EASE = g.easings()
DRAW = {
    "n": lambda r: r.choice([r.uniform(-4, 4), r.randint(-4, 4), r.randint(-8, 8) / 4]),
    "a": lambda r: r.choice([r.uniform(-10, 10), r.uniform(-3, 3), 0, math.pi / 2, -0.5, r.randint(-7, 7)]),
    "f": lambda r: r.choice([r.uniform(0.25, 2), -r.uniform(0.25, 2), 2, 0.5, -1, 1]),
    "p": lambda r: r.choice([r.uniform(0.3, 3), r.uniform(0.3, 3), 1, 2, 0.5]),
    "u": lambda r: r.choice([r.uniform(0, 1), r.uniform(0, 1), r.uniform(-0.7, 1.7), 0, 1, 0.5, 0.25, -1, 2]),
    "w": lambda r: r.uniform(-0.99, 0.99),
    "i": lambda r: r.randint(-9, 9),
    "d": lambda r: r.choice([r.uniform(4, 9), -r.uniform(4, 9), 8, -5]),
    "h": lambda r: r.randint(-3, 3) / 4,
    "s": lambda r: r.choice([0.125, 0.25, 0.5, 1, 0.1, 0.3, r.uniform(0.05, 1)]),
}
# (result, source with {0}.., argument kinds, model); upper case kinds are variables or constructions
OPS = []


def op(res, src, args, f, weight=1):
    OPS.extend([(res, src, args, f)] * weight)


def _ops():
    op("N", "clamp({0}, {1}, {2})", "nnn", lambda a, b, c: g.clamp(a, b, c), 2)
    op("N", "clamp({0}, {1}, {1} + {2})", "nnp", lambda a, b, c: g.clamp(a, b, b + c), 3)
    op("N", "clamp({0}, {1} - {2}, {1})", "nnp", lambda a, b, c: g.clamp(a, b - c, b), 2)
    op("N", "Interval({1}, {1} + {2}).clamp({0})", "nnp", lambda a, b, c: g.clamp(a, b, b + c), 2)
    w = "JudgmentWindow(Interval({0}, {1}), Interval({2}, {3}), Interval({4}, {5}))"
    op("N", w + ".judge({6}, {7})", "hhhhhhhh", g.judge, 3)
    op("N", "(" + w + " * {6}).judge({7}, {8})", "hhhhhhchh", lambda a, b, c, d, e, f, m, x, y: g.judge(*(v * m for v in (a, b, c, d, e, f)), x, y), 1)
    op("N", "(" + w + " + {6}).judge({7}, {8})", "hhhhhhhhh", lambda a, b, c, d, e, f, m, x, y: g.judge(*(v + m for v in (a, b, c, d, e, f)), x, y), 2)
    op("N", "(" + w + " + {6}).end - {7}", "hhhhhhhh", lambda a, b, c, d, e, f, m, x: f + m - x)
    op("N", w + ".start + {6}", "hhhhhhh", lambda a, b, c, d, e, f, x: e + x)
    for nm, f in (("lerp", g.lerp), ("lerp_clamped", lambda a, b, t: g.lerp(a, b, g.unit(t)))):
        op("N", nm + "({0}, {1}, {2})", "nnu", f, 2)
        op("V", nm + "({0}, {1}, {2})", "VVu", lambda a, b, t, f=f: (f(a[0], b[0], t), f(a[1], b[1], t)))
        op("N", "{0}." + nm + "({1})", "Iu", lambda i, t, f=f: f(i[0], i[1], t))
    for nm, f in (("unlerp", g.unlerp), ("unlerp_clamped", lambda a, b, v: g.unit(g.unlerp(a, b, v)))):
        op("N", nm + "({0}, {1}, {2})", "nnn", f, 2)
        op("N", "{0}." + nm + "({1})", "In", lambda i, t, f=f: f(i[0], i[1], t))
    op("N", "remap({0}, {1}, {2}, {3}, {4})", "nnnnn", g.remap, 2)
    op("N", "remap_clamped({0}, {1}, {2}, {3}, {4})", "nnnnn", g.remap_clamped, 2)
    for nm, f in EASE.items():
        op("N", nm + "({0})", "u", f)
    op("N", "perspective_approach({0}, {1})", "pu", g.perspective_approach, 3)
    op("N", "angle_diff({0}, {1})", "aa", g.angle_diff, 2)
    op("N", "signed_angle_diff({0}, {1})", "aa", g.signed_angle_diff, 2)
    for nm in ("sin", "cos", "atan", "tanh"):
        op("N", nm + "({0})", "a", getattr(g, nm))
    op("N", "tan({0})", "w", g.tan)
    op("N", "asin({0})", "w", g.asin)
    op("N", "acos({0})", "w", g.acos)
    op("N", "sinh({0})", "n", g.sinh)
    op("N", "cosh({0})", "n", g.cosh)
    op("N", "atan2({0}, {1})", "nn", g.atan2, 2)
    op("N", "floor({0})", "n", g.floor)
    op("N", "ceil({0})", "n", g.ceil)
    op("N", "trunc({0})", "n", g.trunc)
    op("N", "round({0})", "n", g.rnd)
    op("N", "round({0}, 2)", "n", lambda v: g.rnd(v * 100) / 100, 2)
    op("N", "round({0}, 1)", "n", lambda v: g.rnd(v * 10) / 10)
    op("N", "log({0})", "p", g.log)
    op("N", "log({0}, {1})", "pp", lambda a, b: g.log(a) / g.log(b))
    op("N", "sqrt({0})", "p", g.sqrt)
    op("N", "quantize_to_step({0}, {1}, {2}, {3})[0]", "nnns", lambda *a: g.quantize(*a)[0], 3)
    op("N", "quantize_to_step({0}, {1}, {2}, {3})[1]", "nnns", lambda *a: g.quantize(*a)[1], 2)
    # vectors
    op("V", "Vec2({0}, {1})", "nn", lambda a, b: (a, b), 2)
    for nm, v in (("zero", (0, 0)), ("one", (1, 1)), ("up", (0, 1)), ("down", (0, -1)), ("left", (-1, 0)), ("right", (1, 0))):
        op("V", f"Vec2.{nm}()", "", lambda v=v: (g.x(v[0]), g.x(v[1])))
    op("V", "Vec2.unit({0})", "a", lambda t: (g.cos(t), g.sin(t)))
    op("N", "{0}.magnitude", "V", g.vlen, 2)
    op("N", "{0}.angle", "V", lambda v: g.atan2(v[1], v[0]), 2)
    op("N", "{0}.dot({1})", "VV", lambda a, b: a[0] * b[0] + a[1] * b[1], 2)
    op("V", "{0}.rotate({1})", "Va", g.vrot, 2)
    op("V", "{0}.rotate_about({1}, {2})", "VaV", g.vrota, 2)
    op("V", "{0}.normalize()", "V", lambda v: g.vnorm(nonzero(v)))
    op("V", "{0}.normalize_or_zero()", "V", g.vnorm, 2)
    op("V", "{0}.orthogonal()", "V", lambda v: (-v[1], v[0]))
    op("N", "{0}.tuple[0]", "V", lambda v: v[0])
    op("N", "{0}.tuple[1]", "V", lambda v: v[1])
    op("V", "{0} + {1}", "VV", g.vadd)
    op("V", "{0} - {1}", "VV", g.vsub)
    op("V", "{0} * {1}", "VV", g.vmul)
    op("V", "{0} * {1}", "Vn", g.vs)
    op("V", "{1} * {0}", "Vn", g.vs)
    op("V", "{0} / {1}", "Vf", lambda v, k: (v[0] / k, v[1] / k))
    op("V", "{0} / {1}", "VF", g.vdiv)
    op("V", "-{0}", "V", g.vneg)
    for k in ("{0} * 0", "{0} * 1", "0 * {0}", "{0} / 1"):
        op("V", k, "V", lambda v, k=k: g.vs(v, g.x(0)) if "0 *" in k or "* 0" in k else v)
        if k != "0 * {0}":
            op("I", k, "I", lambda v, k=k: g.vs(v, g.x(0)) if "* 0" in k else v)
    # intervals
    op("I", "Interval({0}, {1})", "nn", lambda a, b: (a, b), 3)
    op("I", "Interval.zero()", "", lambda: (g.x(0), g.x(0)))
    op("N", "{0}.length", "I", lambda i: i[1] - i[0])
    op("N", "{0}.is_empty", "I", lambda i: g.flag(i[0] > i[1]), 2)
    op("N", "{0}.mid", "I", lambda i: (i[0] + i[1]) / 2)
    op("N", "{0}.tuple[1]", "I", lambda i: i[1])
    op("N", "{1} in {0}", "In", lambda i, v: g.flag(i[0] <= v and v <= i[1]), 3)
    op("N", "{1} in {0}", "II", lambda i, v: g.flag(i[0] <= v[0] and v[1] <= i[1]), 3)
    op("I", "{0} + {1}", "In", lambda i, k: (i[0] + k, i[1] + k))
    op("I", "{0} - {1}", "In", lambda i, k: (i[0] - k, i[1] - k))
    op("I", "{0} * {1}", "In", lambda i, k: (i[0] * k, i[1] * k))
    op("I", "{0} / {1}", "If", lambda i, k: (i[0] / k, i[1] / k))
    op("I", "{0} // {1}", "If", lambda i, k: (g.floor(i[0] / k), g.floor(i[1] / k)), 2)
    op("I", "{0} & {1}", "II", lambda i, j: (g.mx(i[0], j[0]), g.mn(i[1], j[1])), 2)
    op("I", "{0}.shrink({1})", "In", lambda i, k: (i[0] + k, i[1] - k))
    op("I", "{0}.expand({1})", "In", lambda i, k: (i[0] - k, i[1] + k))
    op("N", "{0}.clamp({1})", "In", lambda i, v: g.clamp(v, i[0], i[1]), 2)
    # rectangles
    op("R", "Rect(t={0}, r={1}, b={2}, l={3})", "nnnn", lambda *a: a, 2)
    op("R", "Rect.from_center({0}, {1})", "VV", lambda c, d: (c[1] + d[1] / 2, c[0] + d[0] / 2, c[1] - d[1] / 2, c[0] - d[0] / 2), 2)
    op("R", "Rect.from_margin({0})", "n", lambda a: (a, a, -a, -a))
    op("R", "Rect.from_margin({0}, {1})", "nn", lambda a, b: (a, b, -a, -b))
    op("R", "Rect.from_margin({0}, {1}, {2})", "nnn", lambda a, b, c: (a, b, -c, -b))
    op("R", "Rect.from_margin({0}, {1}, {2}, {3})", "nnnn", lambda a, b, c, d: (a, b, -c, -d))
    op("N", "{0}.w", "R", lambda r: r[1] - r[3])
    op("N", "{0}.h", "R", lambda r: r[0] - r[2])
    for i, c in enumerate(("bl", "tl", "tr", "br")):
        op("V", "{0}." + c, "R", lambda r, i=i: g.rquad(r)[i])
        op("V", "{0}." + c, "Q", lambda q, i=i: q[i])
    op("V", "{0}.center", "R", g.rcenter)
    op("V", "{0}.center", "Q", g.qcenter, 2)
    for c, a, b in (("mt", 1, 2), ("mr", 2, 3), ("mb", 0, 3), ("ml", 0, 1)):
        op("V", "{0}." + c, "R", lambda r, a=a, b=b: g.mean(g.rquad(r)[a], g.rquad(r)[b]))
        op("V", "{0}." + c, "Q", lambda q, a=a, b=b: g.mean(q[a], q[b]))
    op("Q", "{0}.as_quad()", "R", g.rquad, 2)
    op("Q", "Quad.from_quad({0})", "R", g.rquad)
    op("Q", "Quad.from_quad({0})", "Q", lambda q: q)
    op("R", "{0}.translate({1})", "RV", lambda r, v: g.rmap(r, lambda p: g.vadd(p, v)))
    op("R", "{0}.scale({1})", "RV", lambda r, v: g.rmap(r, lambda p: g.vmul(p, v)))
    op("R", "{0}.scale_about({1}, {2})", "RVV", lambda r, v, c: g.rmap(r, lambda p: g.about(p, v, c)), 2)
    op("R", "{0}.scale_centered({1})", "RV", lambda r, v: g.rmap(r, lambda p: g.about(p, v, g.rcenter(r))), 2)
    op("R", "{0}.expand({1})", "RV", lambda r, v: (r[0] + v[1], r[1] + v[0], r[2] - v[1], r[3] - v[0]))
    op("R", "{0}.shrink({1})", "RV", lambda r, v: (r[0] - v[1], r[1] - v[0], r[2] + v[1], r[3] + v[0]))
    op("N", "{0}.contains_point({1})", "RV", g.rin, 3)
    # quads
    op("Q", "Quad({0}, {1}, {2}, {3})", "VVVV", lambda *a: a, 2)
    op("Q", "Quad.zero()", "", lambda: ((g.x(0), g.x(0)),) * 4)
    op("Q", "{0}.translate({1})", "QV", lambda q, v: g.qmap(q, lambda p: g.vadd(p, v)))
    op("Q", "{0}.scale({1})", "QV", lambda q, v: g.qmap(q, lambda p: g.vmul(p, v)))
    op("Q", "{0}.scale_about({1}, {2})", "QVV", lambda q, v, c: g.qmap(q, lambda p: g.about(p, v, c)), 2)
    op("Q", "{0}.scale_centered({1})", "QV", lambda q, v: g.qmap(q, lambda p: g.about(p, v, g.qcenter(q))), 2)
    op("Q", "{0}.rotate({1})", "Qa", lambda q, t: g.qmap(q, lambda p: g.vrot(p, t)))
    op("Q", "{0}.rotate_about({1}, {2})", "QaV", lambda q, t, c: g.qmap(q, lambda p: g.vrota(p, t, c)), 2)
    op("Q", "{0}.rotate_centered({1})", "Qa", lambda q, t: g.qmap(q, lambda p: g.vrota(p, t, g.qcenter(q))), 2)
    op("Q", "{0}.permute({1})", "Qi", g.permute, 3)
    op("Q", "{0}.permute()", "Q", lambda q: g.permute(q, g.x(1)))
    op("N", "{0}.contains_point({1})", "QV", lambda q, p: g.inside(q, p), 3)
    for k in range(8):
        op("N", f"flatten_quad({{0}})[{k}]", "Q", lambda q, k=k: q[k // 2][k % 2])
        op("N", f"flatten_quad({{0}})[{k}]", "R", lambda q, k=k: g.rquad(q)[k // 2][k % 2])
    # transforms; on the invertible kind the pair (forward, inverse)
    one = {"translate": ("V", g.T), "scale": ("F", g.S), "scale_about": ("FV", g.SA), "rotate": ("a", g.R), "rotate_about": ("aV", g.RA),
           "shear_x": ("n", g.HX), "shear_y": ("n", g.HY), "simple_perspective_x": ("d", g.SPX), "simple_perspective_y": ("d", g.SPY),
           "perspective_x": ("nW", g.PX), "perspective_y": ("nW", g.PY)}
    op("T", "Transform2d.new()", "", lambda: g.ID, 4)
    op("J", "InvertibleTransform2d.new()", "", lambda: (g.ID, g.ID), 4)
    for nm, (args, f) in one.items():
        call = ", ".join(f"{{{i + 1}}}" for i in range(len(args)))
        if nm.endswith("_about"):
            call = call.replace("{2}", "pivot={2}")
        op("T", f"{{0}}.{nm}({call})", "T" + args, lambda m, *a, f=f: g.mm(f(*a), m), 3)
        op("J", f"{{0}}.{nm}({call})", "J" + args, lambda m, *a, f=f: (g.mm(f(*a), m[0]), g.mm(m[1], g.inverse(f(*a)))), 3)
    op("T", "{0}.inverse_perspective_x({1}, {2})", "TnW", lambda m, a, v: g.mm(g.inverse(g.PX(a, v)), m), 2)
    op("T", "{0}.inverse_perspective_y({1}, {2})", "TnW", lambda m, a, v: g.mm(g.inverse(g.PY(a, v)), m), 2)
    op("T", "{0}.perspective_x({1}, {2}).inverse_perspective_x({1}, {2})", "TcC", lambda m, a, v: m)
    op("T", "{0}.perspective_y({1}, {2}).inverse_perspective_y({1}, {2})", "TcC", lambda m, a, v: m)
    op("T", "{0}.normalize()", "T", g.normalize)
    op("N", "{0}.normalize().a01", "T", lambda m: g.normalize(m)[0][1])
    op("N", "{0}.normalize().a21", "T", lambda m: g.normalize(m)[2][1])
    op("N", "{0}.normalize().a22", "T", lambda m: g.normalize(m)[2][2])
    op("J", "{0}.normalize()", "J", lambda m: (g.normalize(m[0]), g.normalize(m[1])))
    op("T", "{0}.compose({1})", "TT", lambda a, b: g.mm(b, a), 3)
    op("T", "{0}.compose_before({1})", "TT", lambda a, b: g.mm(a, b), 3)
    op("J", "{0}.compose({1})", "JJ", lambda a, b: (g.mm(b[0], a[0]), g.mm(a[1], b[1])), 3)
    op("J", "{0}.compose_before({1})", "JJ", lambda a, b: (g.mm(a[0], b[0]), g.mm(b[1], a[1])), 3)
    op("T", "{0}.forward", "J", lambda j: j[0], 2)
    op("T", "{0}.inverse", "J", lambda j: j[1], 2)
    op("V", "{0}.transform_vec({1})", "TV", g.apply, 3)
    op("V", "{0}.transform_vec({1})", "JV", lambda j, v: g.apply(j[0], v), 2)
    op("V", "{0}.inverse_transform_vec({1})", "JV", lambda j, v: g.apply(j[1], v), 2)
    op("Q", "{0}.transform_quad({1})", "TQ", lambda m, q: g.qmap(q, lambda p: g.apply(m, p)), 3)
    op("Q", "{0}.transform_quad({1})", "TR", lambda m, r: g.qmap(g.rquad(r), lambda p: g.apply(m, p)), 2)
    op("Q", "{0}.transform_quad({1})", "JQ", lambda j, q: g.qmap(q, lambda p: g.apply(j[0], p)))
    op("Q", "{0}.inverse_transform_quad({1})", "JQ", lambda j, q: g.qmap(q, lambda p: g.apply(j[1], p)))
    op("Q", "{0}.inverse_transform_quad({0}.transform_quad({1}))", "JQ", lambda j, q: (g.qmap(q, lambda p: g.apply(j[0], p)), q)[1], 2)


def nonzero(v):
    if abs(v[0].v) < 0.01 and abs(v[1].v) < 0.01:
        raise Ambiguous
    return v


_ops()
BY = {}
for _o in OPS:
    BY.setdefault(_o[0], []).append(_o)


class Gen:
    def __init__(self, seed, runs=3, size=12):
        self.r = random.Random(f"geo{seed}")
        self.runs = runs
        self.slots = []       # (kind, values per run)
        self.lines = []
        self.vars = []        # (name, type, values per run)
        self.expect = [[] for _ in range(runs)]  # per run: (X, operation)
        self.used = {}
        n = int(size * self.r.uniform(0.7, 1.6))
        tries = 0
        while len(self.lines) < 2 * n and tries < 20 * n:
            tries += 1
            mark = len(self.slots)
            try:
                self.statement()
            except Ambiguous:
                del self.slots[mark:]
        self.lines.append("debug_log(424242)")
        for e in self.expect:
            e.append((X(424242), "end"))

    def slot(self, draw=None, values=None, kind=None):
        """Source and values of a number: a literal, a compile-time constant or a run-time input."""
        r = self.r
        kind = kind or r.choice(["lit", "con", "inp", "inp", "inp"])
        if values is None:
            values = [float(draw(r)) for _ in range(self.runs)]
            if kind != "inp":
                values = values[:1] * self.runs
        if kind == "lit":
            v = values[0]
            s = repr(int(v)) if v == int(v) and r.random() < 0.7 else repr(v)
            return (f"({s})" if v < 0 else s), [X(v) for v in values]
        self.slots.append((kind, values))
        return f"{kind}({len(self.slots) - 1})", [X(v) for v in values]

    def num(self, k):
        have = [v for v in self.vars if v[1] == "N"]
        if k in "na" and have and self.r.random() < 0.2:
            n, _, vs = self.r.choice(have)
            return n, vs
        return self.slot(DRAW[k])

    def vec(self, kx, ky):
        a, b = self.slot(DRAW[kx]), self.slot(DRAW[ky])
        return f"Vec2({a[0]}, {b[0]})", list(zip(a[1], b[1]))

    def arg(self, k):
        r = self.r
        if k.islower():
            if k == "c":
                return self.slot(DRAW["n"], kind="con")
            return self.num(k)
        if k == "F":
            return self.vec("f", "f")
        if k in "WC":  # vanishing points away from the foreground, along both axes
            def d(q):
                return q.choice([-1, 1]) * q.uniform(5.5, 9)
            kind = "con" if k == "C" else None
            a, b = self.slot(d, kind=kind), self.slot(d, kind=kind)
            return f"Vec2({a[0]}, {b[0]})", list(zip(a[1], b[1]))
        have = [v for v in self.vars if v[1] == k]
        if have and r.random() < (0.75 if k in "TJQR" else 0.6):
            n, _, vs = r.choice(have[-4:])
            return n, vs
        if k == "V":
            return self.vec("n", "n")
        if k == "I":
            a, b = self.slot(DRAW["n"]), self.slot(DRAW["n"])
            return f"Interval({a[0]}, {b[0]})", list(zip(a[1], b[1]))
        if k == "Q":
            vs = [self.vec("n", "n") for _ in range(4)]
            return f"Quad({', '.join(v[0] for v in vs)})", list(zip(*(v[1] for v in vs)))
        if k == "R":
            vs = [self.slot(DRAW["n"]) for _ in range(4)]
            return f"Rect({', '.join(v[0] for v in vs)})", list(zip(*(v[1] for v in vs)))
        if k == "T":
            return "Transform2d.new()", [g.ID] * self.runs
        return "InvertibleTransform2d.new()", [(g.ID, g.ID)] * self.runs

    def statement(self):
        r = self.r
        c = r.random()
        if c < 0.08:
            return self.interp()
        if c < 0.12:
            return self.polygon()
        t = r.choice("NNNNVVVIRQQTTJJ")
        res, src, kinds, f = r.choice(BY[t])
        args = [self.arg(k) for k in kinds]
        vals = [f(*(a[1][i] for a in args)) for i in range(self.runs)]
        self.emit(res, src.format(*(a[0] for a in args)), vals, src)
        if res in "VIR" and not set(kinds) & set("QJT") and r.random() < (0.5 if " 0" in src or "0 *" in src else 0.15):
            self.assign(res, src)

    def assign(self, t, src):
        """The components of a fresh result can be assigned like any record's."""
        r = self.r
        n, _, vals = self.vars[-1]
        i = r.randrange({"V": 2, "I": 2, "R": 4}[t])
        f = {"V": ["x", "y"], "I": ["start", "end"], "R": ["t", "r", "b", "l"]}[t][i]
        a = self.num("n")
        op = r.choice(["=", "=", "+=", "-="])
        new = []
        for v, k in zip(vals, a[1]):
            v = list(v)
            v[i] = {"=": k, "+=": v[i] + k, "-=": v[i] - k}[op]
            new.append(tuple(v))
        outs = [flat(t, v) for v in new]
        self.lines += [f"{n}.{f} {op} {a[0]}", f"o{t}({n})"]
        self.vars[-1] = (n, t, new)
        self.used["component assigned"] = self.used.get("component assigned", 0) + 1
        for e, o in zip(self.expect, outs):
            e.extend((v, "after assigning a component of " + src) for v in o)

    def emit(self, t, src, vals, label):
        outs = [flat(t, v) for v in vals]
        n = f"t{len(self.vars)}"
        self.lines.append(f"{n} = {src}")
        self.lines.append(f"o{t}({n})")
        self.vars.append((n, t, vals))
        self.used[label] = self.used.get(label, 0) + 1
        for e, o in zip(self.expect, outs):
            e.extend((v, src) for v in o)

    def seq(self, parts):
        tup = self.r.random() < 0.5 or len(parts) < 2
        s = ", ".join(p[0] for p in parts)
        return f"({s},)" if tup else f"Array({s})"

    def interp(self):
        r = self.r
        n = r.randint(2, 6)
        kind = r.choice(["con", "inp", "lit"])
        rows = []
        for _ in range(self.runs):
            v = r.choice([-3, 0, r.uniform(-3, 3)])
            row = []
            for _ in range(n):
                row.append(float(v))
                v += r.choice([0.5, 1, r.uniform(0.1, 2)])
            rows.append(row)
        if kind != "inp":
            rows = rows[:1] * self.runs
        xs = [self.slot(values=[rows[i][j] for i in range(self.runs)], kind=kind) for j in range(n)]
        ys = [self.slot(DRAW["n"]) for _ in range(n)]
        if r.random() < 0.4:
            at = self.slot(values=[r.choice(rows[i]) for i in range(self.runs)], kind="inp")
        else:
            at = self.slot(lambda q: q.uniform(-6, 9), kind=r.choice(["con", "inp", "inp"]))
        clamped = r.random() < 0.5
        vals = [g.interp([p[1][i] for p in xs], [p[1][i] for p in ys], at[1][i], clamped) for i in range(self.runs)]
        nm = "interp_clamped" if clamped else "interp"
        self.emit("N", f"{nm}({self.seq(xs)}, {self.seq(ys)}, {at[0]})", vals, nm)

    def polygon(self):
        r = self.r
        n = r.randint(3, 7)
        vs = [self.vec("n", "n") for _ in range(n)]
        p = self.arg("V")
        vals = [g.inside([v[1][i] for v in vs], p[1][i]) for i in range(self.runs)]
        self.emit("N", f"pnpoly({self.seq(vs)}, {p[0]})", vals, "pnpoly")

    def source(self):
        return HEAD + "\ndef main():\n" + "".join(f"    {x}\n" for x in self.lines)

    def inputs(self):
        """Constants, and the inputs of every run."""
        return [v[0] for _, v in self.slots], [[v[i] for _, v in self.slots] for i in range(self.runs)]
