"""The engine as the model programs of apigen see it: memory, operations and queries, over the reference state."""
import ref
import vin

S = None


def reset(world):
    global S
    S = ref.State(world, 10 ** 6)


def inp(i):
    return vin.INPUTS[int(i)]


def con(i):
    return vin.CONS[int(i)]


def R(block, index):
    return S.read(int(block), int(index))


def W(block, indices, values):
    for i, v in sorted(zip(indices, [float(v) for v in values]), key=lambda p: p[0]):
        S.write(block, i, v)


def E(op, *args):
    return S.effect(op, [float(a) for a in args])


def Q(op, *args):
    return ref.query_value(op, [float(a) for a in args])


def log(v):
    S.effect("DebugLog", [float(v)])


def judge(actual, target, p0, p1, g0, g1, o0, o1):
    d = actual - target
    return 1 if p0 <= d <= p1 else 2 if g0 <= d <= g1 else 3 if o0 <= d <= o1 else 0


def angle(y, x):
    return ref.pure("Arctan2", [y, x])
