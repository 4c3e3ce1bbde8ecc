"""Shrinks a generated Python program: deletes statements, replaces expressions by parts of themselves."""
import ast
import copy
import time


def _bodies(tree, roots):
    for fn in tree.body:
        if isinstance(fn, ast.FunctionDef) and (roots is None or fn.name in roots or fn.name.startswith("f")):
            for n in ast.walk(fn):
                for f in ("body", "orelse", "cases"):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and b:
                        yield n, f


def shrink(src, bad, seconds=30, head=0):
    """bad(source) -> still fails in the same way. Only functions defined after line `head` are touched."""
    end = time.time() + seconds
    tree = ast.parse(src)

    def attempt(t):
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            ast.parse(s)
            return bad(s)
        except SyntaxError:
            return False

    changed = True
    while changed and time.time() < end:
        changed = False
        # statements, from the end
        k = 0
        while time.time() < end:
            spots = [(n, f, i) for n, f in _bodies(tree, None) for i in range(len(getattr(n, f)))]
            if k >= len(spots):
                break
            k += 1
            idx = len(spots) - k
            t = copy.deepcopy(tree)
            ts = [(n, f, i) for n, f in _bodies(t, None) for i in range(len(getattr(n, f)))]
            n, f, i = ts[idx]
            b = getattr(n, f)
            st = b[i]
            if isinstance(st, ast.Pass):
                continue
            if f == "cases" and len(b) == 1:
                continue
            if f == "body" and len(b) == 1:
                b[i] = ast.Pass()
            else:
                del b[i]
            if attempt(t):
                tree, changed = t, True
                k -= 1
                continue
            # a compound statement may be replaced by its body
            if isinstance(st, (ast.If, ast.For, ast.While)):
                t = copy.deepcopy(tree)
                ts = [(n, f, i) for n, f in _bodies(t, None) for i in range(len(getattr(n, f)))]
                n, f, i = ts[idx]
                b = getattr(n, f)
                b[i:i + 1] = b[i].body
                if attempt(t):
                    tree, changed = t, True
        # expressions
        k = 0
        while time.time() < end:
            es = list(_exprs(tree))
            if k >= len(es):
                break
            subs = [c for c in ast.iter_child_nodes(es[k][3]) if isinstance(c, ast.expr)] + [ast.Constant(1)]
            if isinstance(es[k][3], (ast.Constant, ast.Name)):
                subs = subs[:-1]
            done = False
            for j in range(len(subs)):
                t = copy.deepcopy(tree)
                p, f, i, e = list(_exprs(t))[k]
                ss = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)] + [ast.Constant(1)]
                if i is None:
                    setattr(p, f, ss[j])
                else:
                    getattr(p, f)[i] = ss[j]
                if attempt(t):
                    tree, changed, done = t, True, True
                    break
                if time.time() > end:
                    break
            if not done:
                k += 1
    return ast.unparse(tree)


def _exprs(tree):
    for fn in tree.body:
        if isinstance(fn, ast.FunctionDef) and (fn.name.startswith("f") and fn.name not in ("first", "find_first") or fn.name == "main"):
            for n in ast.walk(fn):
                for f, v in ast.iter_fields(n):
                    if isinstance(v, ast.expr) and isinstance(getattr(v, "ctx", ast.Load()), ast.Load):
                        yield n, f, None, v
                    elif isinstance(v, list):
                        for i, x in enumerate(v):
                            if isinstance(x, ast.expr) and isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                                yield n, f, i, x
