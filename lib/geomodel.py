"""Definitions of the numeric and geometric helpers, on numbers that carry a bound of their rounding error.

A comparison or a discontinuity closer than that bound has no defined outcome: it raises Ambiguous."""
import math
from fractions import Fraction


class Ambiguous(Exception):
    pass


U = 4e-16


class X:
    __slots__ = ("v", "e")

    def __init__(self, v, e=0.0):
        self.v, self.e = float(v), e
        if not abs(self.v) < 1e9 or e > 1e-4:
            raise Ambiguous

    def __add__(a, b):
        b = x(b)
        v = a.v + b.v
        exact = not a.e and not b.e and Fraction(a.v) + Fraction(b.v) == Fraction(v)
        return X(v, 0.0 if exact else a.e + b.e + U * (abs(a.v) + abs(b.v)))

    def __neg__(a):
        return X(-a.v, a.e)

    def __sub__(a, b):
        return a + -x(b)

    def __mul__(a, b):
        b = x(b)
        v = a.v * b.v
        exact = not a.e and not b.e and Fraction(a.v) * Fraction(b.v) == Fraction(v)
        return X(v, 0.0 if exact else abs(a.v) * b.e + abs(b.v) * a.e + a.e * b.e + U * abs(v))

    def __truediv__(a, b):
        b = x(b)
        if abs(b.v) < 1e-3:
            raise Ambiguous
        v = a.v / b.v
        exact = not a.e and not b.e and Fraction(a.v) / Fraction(b.v) == Fraction(v)
        return X(v, 0.0 if exact else (a.e + abs(v) * b.e) / abs(b.v) * 1.1 + U * abs(v))

    def __radd__(a, b): return x(b) + a
    def __rsub__(a, b): return x(b) - a
    def __rmul__(a, b): return x(b) * a
    def __rtruediv__(a, b): return x(b) / a

    def __pow__(a, n):
        if n == 0.5:
            return sqrt(a)
        r = x(1)
        for _ in range(n):
            r = r * a
        return r

    def _cmp(a, b):
        b = x(b)
        d = a.v - b.v
        if (a.e or b.e) and abs(d) <= 100 * (a.e + b.e) + 1e-12:
            raise Ambiguous
        return d

    def __lt__(a, b): return a._cmp(b) < 0
    def __le__(a, b): return a._cmp(b) <= 0
    def __gt__(a, b): return a._cmp(b) > 0
    def __ge__(a, b): return a._cmp(b) >= 0
    def __eq__(a, b): return a._cmp(b) == 0
    def __ne__(a, b): return a._cmp(b) != 0
    __hash__ = None

    def __repr__(self):
        return f"{self.v}±{self.e:.1g}"


def x(v):
    return v if isinstance(v, X) else X(v)


def fn(f, lip=2.0):
    """A function of known slope: its error is that of the argument times the slope."""
    def g(a):
        a = x(a)
        try:
            v = f(a.v)
            s = lip(a.v) if callable(lip) else lip
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Ambiguous from None
        return X(v, s * a.e * 1.1 + U * (1 + abs(v)))
    return g


sin, cos, atan, tanh = fn(math.sin, 1), fn(math.cos, 1), fn(math.atan, 1), fn(math.tanh, 1)
tan = fn(math.tan, lambda v: 1 + math.tan(v) ** 2)
asin = fn(math.asin, lambda v: 1 / math.sqrt(1 - v * v))
acos = fn(math.acos, lambda v: 1 / math.sqrt(1 - v * v))
sinh, cosh = fn(math.sinh, math.cosh), fn(math.cosh, lambda v: abs(math.sinh(v)))
log = fn(math.log, lambda v: 1 / v)
exp2 = fn(lambda v: 2.0 ** v, lambda v: 0.7 * 2.0 ** v)


def sqrt(a):
    if a.v == 0 and not a.e:
        return x(0)
    if a.v < 1e-6:
        raise Ambiguous
    r = math.sqrt(a.v)
    return X(r, 0.0 if not a.e and r * r == a.v else a.e / r + U * r)


def atan2(a, b):
    h = math.hypot(a.v, b.v)
    if h < 1e-3 or (b.v < 0 and abs(a.v) <= 1e-6):
        raise Ambiguous
    return X(math.atan2(a.v, b.v), (a.e + b.e) / h + U * 4)


def floor(a):
    f = math.floor(a.v)
    if a.e and min(a.v - f, f + 1 - a.v) <= 100 * a.e + 1e-12:
        raise Ambiguous
    return X(f)


def ceil(a):
    return -floor(-a)


def trunc(a):
    return floor(a) if a.v >= 0 else ceil(a)


def rnd(a):
    f = math.floor(a.v)
    d = a.v - f
    if a.e and abs(d - 0.5) <= 100 * a.e + 1e-12:
        raise Ambiguous
    if d == 0.5:
        return X(f if f % 2 == 0 else f + 1)
    return X(f if d < 0.5 else f + 1)


def mod(a, b):
    b = x(b)
    return a - b * floor(a / b)


def absx(a):
    return X(abs(a.v), a.e)


def mn(a, b):
    a, b = x(a), x(b)
    return a if a.v <= b.v else b


def mx(a, b):
    a, b = x(a), x(b)
    return a if a.v >= b.v else b


def flag(b):
    return x(1 if b else 0)


# --- numbers

def clamp(v, lo, hi):
    if lo.v > hi.v:
        raise Ambiguous
    return mx(lo, mn(hi, v))


def unit(v):
    return clamp(v, x(0), x(1))


def lerp(a, b, t):
    return a + (b - a) * t


def unlerp(a, b, v):
    if abs(b.v - a.v) < 0.01:
        raise Ambiguous
    return (v - a) / (b - a)


def remap(a, b, c, d, v):
    return lerp(c, d, unlerp(a, b, v))


def remap_clamped(a, b, c, d, v):
    return lerp(c, d, unit(unlerp(a, b, v)))


def interp(xs, ys, v, clamped=False):
    if clamped and v.v <= xs[0].v:
        return ys[0]
    if clamped and v.v >= xs[-1].v:
        return ys[-1]
    k = 0
    for i in range(1, len(xs) - 1):
        if v.v > xs[i].v:
            k = i
    return remap(xs[k], xs[k + 1], ys[k], ys[k + 1], v)


def angle_diff(a, b):
    d = signed_angle_diff(a, b)
    return absx(d)


def signed_angle_diff(a, b):
    d = a - b
    t = 2 * math.pi
    k = math.floor((d.v + math.pi) / t)
    r = d.v - k * t
    if abs(abs(r) - math.pi) < 1e-6:
        raise Ambiguous
    return X(r, d.e + U * (abs(d.v) + 10))


def perspective_approach(ratio, progress):
    # positions on the way are at distances from ratio to 1; what is seen goes with 1 / distance
    if ratio.v < 0.05:
        raise Ambiguous
    if ratio.v == 1 and not ratio.e:
        return progress
    if abs(ratio.v - 1) < 0.01:
        raise Ambiguous
    d = lerp(ratio, x(1), progress)
    if d.v <= 0.01:
        raise Ambiguous
    near, far = x(1), 1 / ratio
    return (1 / d - far) / (near - far)


def quantize(v, start, stop, step):
    if stop.v - start.v < 0.01 or step.v < 0.01:
        raise Ambiguous
    n = mx(1, ceil((stop - start) / step))
    return clamp(rnd((v - start) / step), x(0), n - 1), n


# --- easing: built from "in" curves by reflection

def easings():
    E = {}
    pi = math.pi
    b1 = 1.70158
    b2 = b1 * 1.525

    def family(name, inn, inout=None):
        def ein(t):
            return inn(unit(t))

        def eout(t):
            return 1 - inn(1 - unit(t))

        def both(t):
            t = unit(t)
            f = inout or inn
            if t < 0.5:
                return f(2 * t) / 2
            return 1 - f(2 - 2 * t) / 2

        def outin(t):
            t = unit(t)
            if t.v == 0.5 and name in ("expo", "elastic"):
                raise Ambiguous  # the halves do not meet
            if t < 0.5:
                return (1 - inn(1 - 2 * t)) / 2
            return inn(2 * t - 1) / 2 + 0.5
        E["ease_in_" + name], E["ease_out_" + name] = ein, eout
        E["ease_in_out_" + name], E["ease_out_in_" + name] = both, outin
    for name, n in (("quad", 2), ("cubic", 3), ("quart", 4), ("quint", 5)):
        family(name, lambda t, n=n: t ** n)
    family("sine", lambda t: 1 - cos(t * pi / 2))
    family("circ", lambda t: 1 - sqrt(1 - t * t))
    family("back", lambda t: (b1 + 1) * t ** 3 - b1 * t ** 2, lambda t: (b2 + 1) * t ** 3 - b2 * t ** 2)

    def expo(t):
        return x(0) if t == 0 else (x(1) if t == 1 else exp2(10 * t - 10))

    def elastic(t, period=3.0, shift=10.75):
        if t == 0 or t == 1:
            return t
        return -exp2(10 * t - 10) * sin((10 * t - shift) * (2 * pi / period))
    family("expo", expo)
    family("elastic", elastic, lambda t: elastic(t, 4.5, 11.125))
    E["linstep"] = unit

    def smooth(t):
        t = unit(t)
        return 3 * t ** 2 - 2 * t ** 3

    def smoother(t):
        t = unit(t)
        return 6 * t ** 5 - 15 * t ** 4 + 10 * t ** 3
    E["smoothstep"], E["smootherstep"] = smooth, smoother
    E["step_start"] = lambda t: flag(t >= 0)
    E["step_end"] = lambda t: flag(t >= 1)
    return E


# --- vectors are pairs, quads (bl, tl, tr, br), rectangles (t, r, b, l), transforms 3x3 rows

def vadd(a, b): return (a[0] + b[0], a[1] + b[1])
def vsub(a, b): return (a[0] - b[0], a[1] - b[1])
def vmul(a, b): return (a[0] * b[0], a[1] * b[1])
def vdiv(a, b): return (a[0] / b[0], a[1] / b[1])
def vneg(a): return (-a[0], -a[1])
def vs(a, k): return (a[0] * k, a[1] * k)
def vrot(a, t): return (a[0] * cos(t) - a[1] * sin(t), a[0] * sin(t) + a[1] * cos(t))
def vrota(a, t, p): return vadd(vrot(vsub(a, p), t), p)
def vlen(a): return sqrt(a[0] * a[0] + a[1] * a[1])


def vnorm(a):
    if a[0].v == 0 and a[1].v == 0 and not a[0].e and not a[1].e:
        return a
    n = vlen(a)
    return (a[0] / n, a[1] / n)


def mean(*vs_):
    n = len(vs_)
    return tuple(sum((v[i] for v in vs_[1:]), vs_[0][i]) / n for i in (0, 1))


def qmap(q, f):
    return tuple(f(p) for p in q)


def qcenter(q):
    return mean(*q)


def about(v, f, p):
    return vadd(vmul(vsub(v, p), f), p)


def permute(q, n):
    n = int(n.v) % 4  # each corner takes the place of the next one clockwise in (bl, tl, tr, br) order
    return tuple(q[(i - n) % 4] for i in range(4))


def inside(poly, p):
    """Even-odd rule through the winding number; points close to an edge are not defined."""
    total = 0.0
    n = len(poly)
    px, py = p[0].v, p[1].v
    for i in range(n):
        (ax, ay), (bx, by) = [(q[0].v - px, q[1].v - py) for q in (poly[i], poly[(i + 1) % n])]
        dx, dy = bx - ax, by - ay
        l2 = dx * dx + dy * dy
        t = 0.0 if l2 == 0 else max(0.0, min(1.0, -(ax * dx + ay * dy) / l2))
        if math.hypot(ax + t * dx, ay + t * dy) < 1e-3:
            raise Ambiguous
        total += math.atan2(ax * by - ay * bx, ax * bx + ay * by)
    return flag(round(total / (2 * math.pi)) % 2)


def rquad(r):
    t, rr, b, l = r
    return ((l, b), (l, t), (rr, t), (rr, b))


def rcenter(r):
    return ((r[3] + r[1]) / 2, (r[0] + r[2]) / 2)


def rmap(r, f):
    """A transform of both corners."""
    (x0, y0), (x1, y1) = f((r[3], r[2])), f((r[1], r[0]))
    return (y1, x1, y0, x0)


def rin(r, p):
    return flag(r[3] <= p[0] and p[0] <= r[1] and r[2] <= p[1] and p[1] <= r[0])


def mat(*rows):
    return tuple(tuple(x(v) for v in r) for r in rows)


ID = mat((1, 0, 0), (0, 1, 0), (0, 0, 1))


def mm(a, b):
    return tuple(tuple(a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)) for i in range(3))


def T(v): return mat((1, 0, v[0]), (0, 1, v[1]), (0, 0, 1))
def S(f): return mat((f[0], 0, 0), (0, f[1], 0), (0, 0, 1))
def SA(f, p): return mm(T(p), mm(S(f), T(vneg(p))))
def R(t): return mat((cos(t), -sin(t), 0), (sin(t), cos(t), 0), (0, 0, 1))
def RA(t, p): return mm(T(p), mm(R(t), T(vneg(p))))
def HX(k): return mat((1, k, 0), (0, 1, 0), (0, 0, 1))
def HY(k): return mat((1, 0, 0), (k, 1, 0), (0, 0, 1))
def SPX(d): return mat((1, 0, 0), (0, 1, 0), (1 / d, 0, 1))
def SPY(d): return mat((1, 0, 0), (0, 1, 0), (0, 1 / d, 1))


def PX(f, v):
    """x = 0 stays on the line x = f and points at infinity in x go to v."""
    d = v[0] - f
    return mat((v[0] / d, 0, f), (v[1] / d, 1, 0), (1 / d, 0, 1))


def PY(f, v):
    d = v[1] - f
    return mat((1, v[0] / d, 0), (0, v[1] / d, f), (0, 1 / d, 1))


def inverse(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    det = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    if abs(det.v) < 0.02:
        raise Ambiguous
    adj = ((e * i - f * h, c * h - b * i, b * f - c * e), (f * g - d * i, a * i - c * g, c * d - a * f), (d * h - e * g, b * g - a * h, a * e - b * d))
    return tuple(tuple(v / det for v in r) for r in adj)


def apply(m, v):
    r = [row[0] * v[0] + row[1] * v[1] + row[2] for row in m]
    if abs(r[2].v) < 0.05:
        raise Ambiguous
    return (r[0] / r[2], r[1] / r[2])


def normalize(m):
    if abs(m[2][2].v) < 0.05:
        raise Ambiguous
    return tuple(tuple(v / m[2][2] for v in r) for r in m)


def judge(p0, p1, g0, g1, o0, o1, actual, target):
    d = actual - target
    for i, (lo, hi) in enumerate(((p0, p1), (g0, g1), (o0, o1)), 1):
        if lo <= d and d <= hi:
            return x(i)
    return x(0)
