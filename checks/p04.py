"""P04: copy and alias semantics of records and arrays: the library in Python and compiled against a reference model."""
import random

import copygen
import p03
import p05
from sonolus.script.internal.context import RuntimeChecks


def zero(block, index):
    return 0.0


def judge(ctx, body, cons, vals, checks, count=False):
    return p05.judge(ctx, body, cons, vals, checks, count, lib=copygen, sim="M." in body or "lm" in body or "la" in body, gen=zero)


def one(ctx, seed):
    r = random.Random(f"p04{seed}")
    body, features = copygen.gen(seed, r.choice([0.5, 1, 1]))
    cons, vals = p03.values(r), [p03.values(r) for _ in range(3)]
    checks = r.choice(p03.CHECKS)
    kind, message = judge(ctx, body, cons, vals, checks, True)
    if kind == "invalid":
        ctx.count("invalid")
        return
    ctx.count("programs")
    for f in features:
        ctx.count("op:" + f)
    if kind:
        p05.report(ctx, judge, kind, message, body, cons, vals, checks)
    elif len(body) < 1800:
        ctx.sample({"seed": seed, "source": body}, 1)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        one(ctx, seed)


def replay(ctx, r):
    if "body" in r:
        kind, message = judge(ctx, r["body"], r["cons"], r["vals"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    else:
        one(ctx, (r.get("crash") or r.get("hang"))["seed"])
