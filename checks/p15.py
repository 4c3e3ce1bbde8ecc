"""P15: stream declarations with a history of writes in play and queries in watch, against plain sorted maps."""
import random

import p03
import pyshrink
import ref
import script
import streamgen
import streammodel as M
import vin
from sonolus.backend.mode import Mode
from sonolus.script.internal.context import RuntimeChecks

LEVELS = p03.LEVELS
BLOCKS = {Mode.PLAY: 1001, Mode.WATCH: 1001}


class Backing:
    """The recording as the engine keeps it: numbered sequences of keys and numbers."""

    def __init__(self):
        self.lines = {}

    def record(self, events):
        for e in events:
            if e[0] == "StreamSet":
                self.lines.setdefault(e[1], M.Line()).set(e[2], e[3])

    def query(self, op, args):
        if not op.startswith("Stream"):
            return ref.query_value(op, args)
        line = self.lines.get(args[0]) or M.Line()
        if op == "StreamHas":
            return 1.0 if line.has(args[1]) else 0.0
        return float({"StreamGetValue": line.get, "StreamGetNextKey": line.next, "StreamGetPreviousKey": line.prev}[op](args[1]))


def values(r):
    v = [r.choice([0, 1, 2, 3, -1, 0.5, -2.5, r.randint(-9, 9), r.randint(-40, 40) / 4, r.randint(-40, 40) / 4]) for _ in range(12)]
    v += [r.randint(0, 12) for _ in range(4)] + [r.randint(0, 9)]
    if r.random() < 0.5:  # few distinct keys: overwriting, adjacent frames
        v[:6] = [r.choice([0, 1, 2, 0.5]) for _ in range(6)]
    return v


def clock(r, vals):
    now = r.choice([r.choice(vals[:12]), r.choice(vals[:12]), r.randint(-20, 40) / 4])
    other = r.choice(vals[:12])
    delta = now - other if other < now and r.random() < 0.7 else r.choice([0, 0.25, 1, 3, 60])
    return [float(now), float(delta)]


def world(c, vals, clk, backing=None):
    mem = {(BLOCKS[c.mode], 0): clk[0], (BLOCKS[c.mode], 1): clk[1]}
    w = c.world(vals, mem=mem)
    if backing:
        w.query = backing.query
    return w


def judge(ctx, p, checks, count=False):
    """p: {play, watch, cons, sets: [(play inputs, watch inputs, play clock, watch clock)]}; (kind, message)."""
    vin.CONS[:] = p["cons"]
    mods = []

    def load(src):
        m = script.module(ctx, src)
        mods.append(m)
        return m
    try:
        mp, mw = load(p["model_play"]), load(p["model_watch"])
        exp = []
        for pv, wv, pc, wc in p["sets"]:
            M.reset("play")
            M.CLOCK[:] = pc
            log1, _, e1 = script.python_run(mp.play, pv)
            M.reset("watch")
            M.CLOCK[:] = wc
            log2, _, e2 = script.python_run(mw.watch, wv)
            log3, _, e3 = script.python_run(mw.dump, wv)
            bad = [e for e in (e1, e2, e3) if e is not None and not isinstance(e, IndexError)]
            if bad:
                return "invalid", repr(bad[0])
            if (e1 or e2 or e3) and checks is RuntimeChecks.NONE:
                if count:
                    ctx.count("discarded-input")
                exp.append(None)
                continue
            exp.append((log1, log2, log3, bool(e1), bool(e2)))
        if not any(exp):
            return "invalid", "no valid input"
        rp, rw = load(p["play"]), load(p["watch"])
        try:
            cs = [script.Compiled(f, checks=checks, mode=m, levels=LEVELS)
                  for f, m in ((rp.play, Mode.PLAY), (rw.watch, Mode.WATCH), (rw.dump, Mode.WATCH))]
        except ref.BadProgram as e:
            return "bad-program", str(e)
        except Exception as e:
            x = p03.root(e)
            if any(a in str(x) for a in p03.ALLOWED) or isinstance(x, IndexError) and p.get("trap"):
                return "invalid", repr(x)
            return f"refused:{type(x).__name__}:{p03.gist(x)}", f"the compiler refuses the program: {x!r}"
        for (pv, wv, pc, wc), ex in zip(p["sets"], exp):
            if ex is None:
                continue
            log1, log2, log3, stop1, stop2 = ex
            for i, lv in enumerate(LEVELS):
                lw = LEVELS[(i + p["shift"]) % 3]
                try:
                    ev = cs[0].run(lv, world(cs[0], pv, pc))
                    back = Backing()
                    back.record(ev)
                    got = [script.logs(ev)] + [script.logs(c.run(lw, world(c, wv, wc, back))) for c in cs[1:]]
                except Exception as e:
                    return "fault", f"play {pv}, watch {wv}, levels {lv}/{lw}: {e!r}"
                if checks is RuntimeChecks.NOTIFY_AND_TERMINATE:  # its notification is a log entry, too
                    for j, stop in enumerate((stop1, stop2)):
                        if stop and got[j]:
                            got[j].pop()
                if count:
                    ctx.count("comparisons", 3)
                    ctx.count("writes", sum(e[0] == "StreamSet" for e in ev))
                    ctx.count("reads", len(log2) + len(log3))
                    ctx.count("stops", stop1 + stop2)
                for what, a, b in zip(("play", "watch", "dump"), got, (log1, log2, log3)):
                    if a != b:
                        j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                        return f"{what}-diff", (f"play inputs {pv} clock {pc}, watch inputs {wv} clock {wc}, levels {lv}/{lw}: entry {j} of the log of {what}: "
                                                f"expected {b[max(0, j - 3):j + 5]}, got {a[max(0, j - 3):j + 5]}")
            if count:
                ctx.count("evaluations")
                if len(log2) + len(log3) > 6:
                    ctx.distinct(hash((tuple(log2), tuple(log3))))
        return None, None
    finally:
        for m in mods:
            script.forget(m)


def program(seed):
    r = random.Random(f"p15{seed}")
    g = streamgen.Gen(seed)
    trap = r.random() < 0.15
    play, watch, dump = g.play(trap), g.watch(trap), g.dump()
    sets = []
    for _ in range(4):
        pv, wv = values(r), values(r)
        for i in range(12):  # mostly keys that were written
            if r.random() < 0.6:
                wv[i] = r.choice(pv[:12])
        sets.append([pv, wv, clock(r, pv), clock(r, pv)])
    p = {"play": g.source(play, True), "watch": g.source(watch + dump, True, True), "model_play": g.source(play, False),
         "model_watch": g.source(watch + dump, False, True), "cons": values(r), "sets": sets, "shift": r.randrange(3), "trap": trap,
         "body": g.decl(True, False) + play + watch, "tail": bool(g.tail)}
    return g, p


def histories(ctx, seed):
    g, p = program(seed)
    checks = p03.CHECKS[random.Random(f"c{seed}").randrange(3)]
    kind, message = judge(ctx, p, checks, True)
    if kind == "invalid":
        ctx.count("invalid")
        ctx.count("invalid:" + message[:60])
        return
    ctx.count("programs")
    ctx.count("streams", len(g.fields))
    for f in g.features:
        ctx.count("feature:" + f)
    if p["tail"]:
        ctx.count("extended-declarations")
    if kind:
        report(ctx, kind, message, p, checks)
    elif len(p["body"]) < 1500:
        ctx.sample({"seed": seed, "source": p["body"]}, 1)


def report(ctx, kind, message, p, checks):
    if ctx.keys[kind]:
        ctx.violation(kind, "", None)
        return
    # shrink the two bodies separately; real and model sources share them
    small = dict(p)
    try:
        for a, b in (("play", "model_play"), ("watch", "model_watch")):
            mark = "def play" if a == "play" else "def watch"
            head, mhead = p[a][:p[a].index(mark)], p[b][:p[b].index(mark)]

            def bad(body):
                if mark not in body:
                    return False
                q = dict(small, **{a: head + body, b: mhead + body})
                try:
                    with script.limited(5):
                        return judge(ctx, q, checks)[0] == kind
                except (Exception, script.Slow):
                    return False
            body = pyshrink.shrink(p[a][len(head):], bad, 30)
            if bad(body):
                small.update({a: head + body, b: mhead + body})
        message = judge(ctx, small, checks)[1] or message
    except (Exception, script.Slow) as e:
        message += f" (not shrunk: {e!r})"
    text = small["play"][small["play"].index("@streams"):] + small["watch"][small["watch"].index("def watch"):]
    ctx.violation(kind, f"{message}\nconstants {p['cons']}, checks {checks.name}\n{text}", {"program": small, "checks": checks.name})


DECL = """
@streams
class Streams:
    s: Stream[int]
    v: Stream[Vec2]
    e: Stream[E]
    g: StreamGroup[P, 3]
    d: P
    n: int


def main():
    {}
    debug_log(1)
"""
READS = ["debug_log(Streams.s[inp(0)])", "show_V(Streams.v[1])", "debug_log(1 in Streams.s)", "debug_log(inp(0) not in Streams.e)",
         "show_P(Streams.g[1][inp(0)])", "show_P(Streams.d)", "debug_log(Streams.n)", "debug_log(Streams.n + 1)", "debug_log(Streams.d.x)",
         *[f"debug_log(Streams.s.{m}(inp(0)))" for m in ("next_key", "previous_key", "has_next_key", "has_previous_key", "next_key_inclusive", "previous_key_inclusive")],
         *[f"show_V(Streams.v.{m}(inp(0)))" for m in ("get_next", "get_previous", "get_next_inclusive", "get_previous_inclusive")],
         *[f"for k in Streams.s.iter_{w}_from{d}(0): debug_log(k)" for w in ("keys", "values") for d in ("", "_desc")],
         "for k, v in Streams.v.iter_items_from(0): debug_log(k)", "for k in Streams.e.iter_keys_since_previous_frame(): debug_log(k)",
         "debug_log(Streams.s.next_key_or_default(inp(0), 3))", "debug_log(Streams.s.previous_key_or_default(inp(0), 3))"]
WRITES = ["Streams.s[inp(0)] = 1", "Streams.v[1] = Vec2(1, 2)", "Streams.e[1] = E()", "Streams.g[inp(0)][1] = P(1, 2)", "Streams.d = P(1, 2)", "Streams.n = inp(0)",
          "Streams.v[1].x = inp(0)", "Streams.d.x = 2", "put(Streams.s, 1, inp(1))"]
NEVER = ["Streams.s = 1", "Streams.s[1] = P(1, 2)", "Streams.v[1] = 3", "Streams.s[1] += 1", "Streams.v[1] += Vec2(1, 1)"]


def modes(ctx, seed):
    """Reading where streams are written, writing where they are read, and any use elsewhere is refused."""
    r = random.Random(f"m{seed}")
    text, bad, ok = r.choice([(t, [Mode.PLAY, Mode.PREVIEW, Mode.TUTORIAL], Mode.WATCH) for t in READS]
                             + [(t, [Mode.WATCH, Mode.PREVIEW, Mode.TUTORIAL], Mode.PLAY) for t in WRITES]
                             + [(t, list(Mode), None) for t in NEVER])
    cover = r.choice(["{}", "if inp(1) > 0:\n        {}", "for i in range(3):\n        {}"])
    m = script.module(ctx, streamgen.HEAD + streamgen.REAL + DECL.replace("{}", cover.replace("{}", text)))
    try:
        for mode in Mode:
            try:
                script.Compiled(m.main, mode=mode, levels=("minimal",))
                accepted = True
            except Exception as e:
                accepted = False
                err = p03.root(e)
            ctx.count("mode-uses")
            if accepted and mode in bad:
                ctx.violation(f"mode-accepted:{text}", f"`{text}` compiles in {mode.name}", {"modes": seed})
            if not accepted and mode is ok:
                ctx.violation(f"mode-refused:{text}", f"`{text}` is refused in {mode.name}: {err!r}", {"modes": seed})
    finally:
        script.forget(m)


def work(ctx):
    for i, seed in enumerate(ctx.cases()):
        ctx.mark({"seed": seed})
        if i % 20 == 3:
            modes(ctx, seed)
        else:
            histories(ctx, seed)


def replay(ctx, r):
    if "program" in r:
        kind, message = judge(ctx, r["program"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    elif "modes" in r:
        modes(ctx, r["modes"])
    else:
        s = (r.get("crash") or r.get("hang"))["seed"]
        histories(ctx, s)
        modes(ctx, s)
