"""P05: histories of collection operations, compiled and in Python, against list/set/dict models."""
import random

import adtgen
import p03
import pyshrink
import ref
import script
import vin
from sonolus.script.internal.context import RuntimeChecks

LEVELS = p03.LEVELS


def judge(ctx, body, cons, vals, checks, count=False, lib=adtgen, sim=False, gen=None):
    """(kind, message) of the first disagreement with the model."""
    vin.CONS[:] = cons
    mods = []
    try:
        mm = script.module(ctx, lib.source(body, True))
        mods.append(mm)
        exp = [script.python_run(mm.main, v) for v in vals]
        valid = [(v, e[0]) for v, e in zip(vals, exp) if e[2] is None]
        if len(valid) < len(vals) and count:
            ctx.count("discarded-input", len(vals) - len(valid))
        if not valid:
            return "invalid", None
        ml = script.module(ctx, lib.source(body, False))
        mods.append(ml)
        for v, log in valid:
            got, _, ex = script.python_run(ml.main, v, sim)
            if count:
                ctx.count("comparisons")
            if ex is not None:
                return f"python-raised:{type(ex).__name__}", f"inputs {v}: in Python the library raises {ex!r}; expected log {log[:20]}"
            if got != log:
                return "python-diff", p_message(v, "Python", log, got)
        try:
            c = script.Compiled(ml.main, checks=checks, levels=LEVELS)
        except ref.BadProgram as e:
            return "bad-program", str(e)
        except Exception as e:
            x = p03.root(e)
            if any(a in str(x) for a in p03.ALLOWED):
                return "invalid", None
            return f"refused:{type(x).__name__}:{p03.gist(x)}", f"the compiler refuses the program: {x!r}"
        for v, log in valid:
            for lv in LEVELS:
                try:
                    got = script.logs(c.run(lv, c.world(v, gen=gen)))
                except Exception as e:
                    return "fault", f"inputs {v}, level {lv}: {e!r}"
                if count:
                    ctx.count("comparisons")
                    ctx.count("events", len(log))
                if got != log:
                    return "diff", p_message(v, f"level {lv}", log, got)
            if count:
                ctx.count("evaluations")
                if len(log) >= 3:
                    ctx.distinct(hash(tuple(log)))
        return None, None
    finally:
        for m in mods:
            script.forget(m)


def p_message(v, where, log, got):
    i = next((i for i, (a, b) in enumerate(zip(got, log)) if a != b), min(len(got), len(log)))
    return f"inputs {v}, {where}: entry {i} of the log: the model gives {log[i:i + 6]}, the library {got[i:i + 6]}"


def report(ctx, judge, kind, message, body, cons, vals, checks):
    if ctx.keys[kind]:
        ctx.violation(kind, "", None)
        return
    small = body
    try:
        def bad(s):
            try:
                with script.limited(5):
                    return judge(ctx, s, cons, vals, checks)[0] == kind
            except (Exception, script.Slow):
                return False
        small = pyshrink.shrink(body, bad, 45)
        message = judge(ctx, small, cons, vals, checks)[1] or message
    except (Exception, script.Slow) as e:
        message += f" (not shrunk: {e!r})"
    ctx.violation(kind, f"{message}\nconstants {cons}, checks {checks.name}\n{small}",
                  {"body": small, "cons": cons, "vals": vals, "checks": checks.name})


def one(ctx, seed):
    r = random.Random(f"p05{seed}")
    body, features = adtgen.gen(seed, r.choice([0.7, 1, 1, 1.5]))
    cons, vals = p03.values(r), [p03.values(r) for _ in range(3)]
    checks = r.choice(p03.CHECKS)
    kind, message = judge(ctx, body, cons, vals, checks, True)
    if kind == "invalid":
        ctx.count("invalid")
        return
    ctx.count("programs")
    for f in features:
        ctx.count("op:" + f if "." in f else "container:" + f)
    if kind:
        report(ctx, judge, kind, message, body, cons, vals, checks)
    elif len(body) < 1500:
        ctx.sample({"seed": seed, "source": body}, 1)


LINKED = '''from __future__ import annotations
from sonolus.script.archetype import PlayArchetype, EntityRef, imported, entity_memory, shared_memory
from sonolus.script.containers import sort_linked_entities, Pair
from sonolus.script.debug import debug_log
from vin import inp, con


class N(PlayArchetype):
    name = "N"
    pad: float = shared_memory()
    k1: float = shared_memory()
    k2: float = shared_memory()
    next: EntityRef[N] = shared_memory()
    prev: EntityRef[N] = shared_memory()


def ref(i):
    return EntityRef[N](i)


def main():
    {setup}
    head = ref({head})
    s = sort_linked_entities(head, get_value=lambda e: {value}, get_next_ref=lambda e: e.next{prev})
    cur = ref(s.index)
    last = 0
    while cur.index > 0:
        debug_log(cur.index)
        debug_log(cur.get().k1)
        last = cur.index
        cur.index = cur.get().next.index
    debug_log(999)
    while last > 0 and {back}:
        debug_log(last)
        last = N.at(last).prev.index
'''


def linked(ctx, seed):
    """sort_linked_entities: a stable sort of the list that keeps the nodes and their links."""
    r = random.Random(f"linked{seed}")
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 19])
    order = r.sample(range(1, 30), n)
    back = r.random() < 0.6
    two = r.random() < 0.3
    setup = []
    for i, e in enumerate(order):
        nx = order[i + 1] if i + 1 < n else 0
        setup += [f"N.at({e}).k1 = inp({i})", f"N.at({e}).k2 = inp({i + 40})", f"N.at({e}).next.index = {nx}",
                  f"N.at({e}).prev.index = {order[i - 1] if i else 0}"]
    src = LINKED.format(setup="\n    ".join(setup) or "pass", head=order[0] if n else 0, back=back,
                        value="Pair(e.k1, e.k2)" if two else r.choice(["e.k1", "e.k1", "-e.k1", "e.k1 % 2"]) if not two else "",
                        prev=", get_prev_ref=lambda e: e.prev" if back else "")
    m = script.module(ctx, src)
    try:
        c = script.Compiled(m.main, checks=r.choice(p03.CHECKS), levels=LEVELS, archetypes=[m.N])
        f = {"e.k1": lambda a, b: a, "-e.k1": lambda a, b: -a, "e.k1 % 2": lambda a, b: a % 2, "Pair(e.k1, e.k2)": lambda a, b: (a, b)}
        f = next(v for k, v in sorted(f.items(), key=lambda x: -len(x[0])) if f"lambda e: {k}," in src)
        for _ in range(3):
            vals = [float(r.choice([0, 1, 2, 3, r.randint(-20, 20), 0.5])) for _ in range(60)]
            ks = {e: (vals[i], vals[i + 40]) for i, e in enumerate(order)}
            want = sorted(order, key=lambda e: f(*ks[e]))
            log = [x for e in want for x in (float(e), ref.canon(ks[e][0]))] + [999.0]
            if back:
                log += [float(e) for e in reversed(want)]
            for lv in LEVELS:
                got = script.logs(c.run(lv, c.world(vals, gen=lambda block, index: 0.0)))
                ctx.count("comparisons")
                ctx.count("linked-sorts")
                if got != log:
                    ctx.violation("linked-sort", f"level {lv}: expected {log[:40]}, got {got[:40]}\n{src[src.find('def main'):]}", {"linked": seed})
                    return
            ctx.count("evaluations")
    finally:
        script.forget(m)


def work(ctx):
    for i, seed in enumerate(ctx.cases()):
        ctx.mark({"seed": seed})
        if i % 12 == 5:
            linked(ctx, seed)
        else:
            one(ctx, seed)


def replay(ctx, r):
    if "body" in r:
        kind, message = judge(ctx, r["body"], r["cons"], r["vals"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    elif "linked" in r:
        linked(ctx, r["linked"])
    else:
        seed = (r.get("crash") or r.get("hang"))["seed"]
        one(ctx, seed)
        linked(ctx, seed)
