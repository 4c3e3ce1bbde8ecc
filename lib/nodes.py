"""Structural identity of engine trees, without recursion."""
import math


class Table:
    """Interns trees: equal trees get equal numbers, 5 and 5.0 do not count as equal unless loose."""

    def __init__(self, loose=False, addr=False):
        self.loose = loose
        self.addr = addr
        self.shape = {}
        self.keys = {}
        self.memo = {}
        self.keep = []
        self.bad = None

    def leaf(self, n):
        if isinstance(n, bool) or not isinstance(n, (int, float)):
            self.bad = self.bad or f"leaf {n!r}"
            return ("?", repr(n))
        if isinstance(n, float) and not math.isfinite(n):
            self.bad = self.bad or f"leaf {n!r} cannot be represented in a package"
            return ("x", repr(n))
        if self.loose:
            return ("n", float(n))
        return ("i", n) if isinstance(n, int) else ("f", n)

    def key(self, k):
        return self.keys.setdefault(k, len(self.keys))

    def node(self, op, args):
        if self.addr:
            if op.endswith("Shifted") and len(args) >= 4:
                op = op[:-7]
                args = [args[0], self.sum([args[1], self.times([args[2], args[3]])]), *args[4:]]
            elif op == "Add":
                return self.sum(args)
            elif op == "Multiply":
                return self.times(args)
        return self.key((op, *args))

    def num(self, k):
        f = self.shape.get(k)
        return f[1] if f and f[0] == "n" else None

    def times(self, args):
        fs, st = [], list(args)
        while st:
            a = st.pop()
            f = self.shape.get(a)
            if f and f[0] == "prod":
                fs += f[1]
            elif self.num(a) != 1:
                fs.append(a)
        if not fs:
            return args[0]
        if len(fs) == 1:
            return fs[0]
        fs.sort()
        k = self.key(("prod", tuple(fs)))
        self.shape[k] = ("prod", fs)
        return k

    def sum(self, args):
        """A canonical sum: an address may be written as shift, index and stride, or as an expression."""
        terms, c, st = [], 0, list(args)
        while st:
            a = st.pop()
            f = self.shape.get(a)
            if f and f[0] == "sum":
                terms += f[1]
                c += f[2]
            elif f and f[0] == "n":
                c += f[1]
            else:
                terms.append(a)
        terms.sort()
        if not terms:
            k = self.key(("f", float(c)))
            self.shape[k] = ("n", c)
            return k
        if len(terms) == 1 and c == 0:
            return terms[0]
        k = self.key(("sum", tuple(terms), float(c)))
        self.shape[k] = ("sum", terms, c)
        return k

    def id(self, root):
        st = [(root, False)]
        memo = self.memo
        while st:
            n, done = st.pop()
            if id(n) in memo:
                continue
            self.keep.append(n)
            if not hasattr(n, "func"):
                if self.addr and isinstance(n, (int, float)) and n == n:
                    k = self.key(("f", float(n)))
                    self.shape[k] = ("n", n)
                else:
                    k = self.key(self.leaf(n))
                memo[id(n)] = k
            elif done:
                memo[id(n)] = self.node(getattr(n.func, "name", n.func), [memo[id(a)] for a in n.args])
            else:
                st.append((n, True))
                for a in n.args:
                    if id(a) not in memo:
                        st.append((a, False))
        return memo[id(root)]


def show(n, depth=4):
    if not hasattr(n, "func"):
        return repr(n)
    if depth == 0:
        return getattr(n.func, "name", n.func) + "(...)"
    return getattr(n.func, "name", n.func) + "(" + ", ".join(show(a, depth - 1) for a in n.args) + ")"


def difference(a, b):
    """First place two trees differ."""
    st = [(a, b, "root")]
    while st:
        x, y, path = st.pop()
        if x is y:
            continue
        fx, fy = hasattr(x, "func"), hasattr(y, "func")
        if fx != fy or (not fx and (type(x) is not type(y) or x != y)):
            return f"{path}: {show(x)} against {show(y)}"
        if not fx:
            continue
        if x.func != y.func or len(x.args) != len(y.args):
            return f"{path}: {show(x)} against {show(y)}"
        for i, (p, q) in reversed(list(enumerate(zip(x.args, y.args)))):
            st.append((p, q, path + f".{i}" if len(path) < 200 else path))
    return None


def odd_block(root):
    """Whether some access names a block by a constant that is not an integer, or may go beyond int32 addresses."""
    st, seen = [root], set()
    while st:
        n = st.pop()
        if not hasattr(n, "func") or id(n) in seen:
            continue
        seen.add(id(n))
        f = getattr(n.func, "name", n.func)
        if f.startswith(("Get", "Set", "Increment", "Decrement")) and n.args:
            b = n.args[0]
            if hasattr(b, "func") and getattr(b.func, "name", "") == "Get" and b.args[0] == 3000:
                return True
            if isinstance(b, (int, float)) and (b != b or abs(b) == math.inf or b != int(b)):
                return True
            if any(isinstance(a, (int, float)) and not abs(a) < 2**31 - 1 for a in n.args):
                return True
        st += n.args
    return False
