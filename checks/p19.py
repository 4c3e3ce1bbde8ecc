"""P19: programs over the engine API run compiled; every engine operation, read and write must be the documented one."""
import random

import apigen
import apimodel
import p03
import ref
import script
import vin
from sonolus.backend.mode import Mode
from sonolus.script.internal.context import RuntimeChecks

LEVELS = p03.LEVELS
MODES = {"play": Mode.PLAY, "watch": Mode.WATCH, "preview": Mode.PREVIEW, "tutorial": Mode.TUTORIAL}


def values(r):
    v = [r.choice([0, 1, 2, 3, -1, 0.5, -2.5, r.randint(-9, 9), r.randint(-30, 30) / 4]) for _ in range(16)]
    return v + [0, 1, 2, 3, 4]  # inputs 16.. are their own index


def memory(mode, seed):
    """What the engine's memory holds: quarter-integers, and flags where there are flags."""
    b = apigen.B[mode]
    flags = {(b["env"], i) for i, n in enumerate(apigen.ENV[mode]) if n in apigen.BOOLS}
    if "upd" in b:
        flags |= {(b["upd"], i) for i, n in enumerate(apigen.UPD[mode]) if n in apigen.BOOLS}
    size = 10 if mode in ("play", "watch") else 9
    flags |= {(b["ui"], (i + 1) * size - 1) for i in range(len(apigen.UI[mode]))}
    touches = (b["upd"], 3) if mode == "play" else None

    def gen(block, index):
        u = ref.hash01(seed, block, index)
        if (block, index) in flags or "touch" in b and block == b["touch"] and index % 15 in (1, 2):
            return float(u < 0.5)
        if (block, index) == touches:
            return float(int(u * 4))
        return float(int(u * 81)) / 4 - 10
    return gen


def trace(events):
    """Events as compared: the order within an uninterrupted run of writes to different places does not matter."""
    out, run = [], []
    for e in events:
        if e[0] == "S":
            run.append(e)
            continue
        out += sorted(run, key=lambda w: w[1:3])
        run = []
        if e[0] != "ret":
            out.append(e)
    return out + sorted(run, key=lambda w: w[1:3])


def judge(ctx, p, checks, count=False):
    vin.CONS[:] = p["cons"]
    src, model = apigen.sources(p["parts"])
    mods = []
    try:
        mm = script.module(ctx, model)
        mods.append(mm)
        exp = []
        for i, v in enumerate(p["vals"]):
            vin.INPUTS[:] = v
            apimodel.reset(ref.World(i, gen=memory(p["mode"], f"{p['seed']}.{i}")))
            try:
                mm.run()
            except (NameError, IndexError) as e:
                return "invalid", repr(e)
            except ref.Fault:
                exp.append(None)
                if count:
                    ctx.count("discarded-input")
                continue
            exp.append(trace(apimodel.S.events))
        m = script.module(ctx, src)
        mods.append(m)
        try:
            c = script.Compiled(m.run, checks=checks, mode=MODES[p["mode"]], callback=p["callback"], levels=LEVELS)
        except ref.BadProgram as e:
            return "bad-program", str(e)
        except Exception as e:
            x = p03.root(e)
            return f"refused:{type(x).__name__}:{p03.gist(x)}", f"the compiler refuses the program in {p['mode']} {p['callback']}: {x!r}"
        for i, v in enumerate(p["vals"]):
            if exp[i] is None:
                continue
            gen = memory(p["mode"], f"{p['seed']}.{i}")
            for lv in LEVELS:
                try:
                    got = trace(c.run(lv, c.world(v, i, gen)))
                except Exception as e:
                    return "fault", f"{p['mode']} {p['callback']}, inputs {v}, level {lv}: {e!r}"
                if count:
                    ctx.count("comparisons")
                if got != exp[i]:
                    j = next((j for j, (x, y) in enumerate(zip(got, exp[i])) if x != y), min(len(got), len(exp[i])))
                    ops = [x[j][0] if j < len(x) else "end" for x in (exp[i], got)]
                    return f"diff:{ops[0]}", f"{p['mode']} {p['callback']}, inputs {v}, level {lv}: event {j}: expected {exp[i][j:j + 3]}, got {got[j:j + 3]}"
            if count:
                ctx.count("evaluations")
                ctx.count("operations", sum(e[0] not in ("S", "DebugLog") for e in exp[i]))
                ctx.count("writes", sum(e[0] == "S" for e in exp[i]))
                ctx.count("reads", sum(e[0] == "DebugLog" for e in exp[i]))
                if len(exp[i]) > 3:
                    ctx.distinct(hash(tuple(exp[i])))
        return None, None
    finally:
        for m in mods:
            script.forget(m)


def program(ctx, seed):
    r = random.Random(f"p19{seed}")
    g = apigen.Gen(seed)
    p = {"seed": seed, "mode": g.mode, "callback": g.callback, "parts": g.program(), "cons": values(r), "vals": [values(r) for _ in range(3)]}
    checks = r.choice(p03.CHECKS)
    kind, message = judge(ctx, p, checks, True)
    if kind == "invalid":
        ctx.count("invalid")
        ctx.count("invalid:" + message[:60])
        return
    ctx.count("programs")
    ctx.count(f"callback:{g.mode}.{g.callback}")
    for f in g.features:
        ctx.count("feature:" + f)
    if not kind:
        if len(p["parts"]) < 7:
            ctx.sample({"seed": seed, "mode": g.mode, "callback": g.callback, "source": [x for a, _ in p["parts"] for x in a]}, 1)
        return
    if ctx.keys[kind]:
        ctx.violation(kind, "", None)
        return
    i = 0
    while i < len(p["parts"]):
        q = dict(p, parts=p["parts"][:i] + p["parts"][i + 1:])
        k, m = judge(ctx, q, checks)
        if k == kind:
            p, message = q, m
        else:
            i += 1
    text = "\n".join(x for a, _ in p["parts"] for x in a)
    ctx.violation(kind, f"{message}\nconstants {p['cons']}, checks {checks.name}\n{text}", {"program": p, "checks": checks.name})


CASES = apigen.refusals()


def permission(ctx, i):
    """A write to engine or level data compiles, and happens, exactly in the callbacks that may make it."""
    mode, cb, statement, place, legal, guard = CASES[i]
    src = apigen.HEAD + apigen.DECL + "def run():\n" + (f"    if inp(16) == 0:\n        {statement}\n" if guard else f"    {statement}\n") + "    debug_log(1)\n"
    m = script.module(ctx, src)
    try:
        try:
            c = script.Compiled(m.run, mode=MODES[mode], callback=cb, levels=("standard",))
            err = None
        except Exception as e:
            err = p03.root(e)
        ctx.count("permissions")
        key = f"{mode}.{cb}:{statement}"
        if err is None and not legal:
            ctx.violation("accepted:" + key, f"`{statement}` compiles in {mode} {cb}, where that data must not change", {"permission": i})
        elif err is not None and legal:
            ctx.violation("refused:" + key, f"`{statement}` is refused in {mode} {cb}: {err!r}", {"permission": i})
        elif legal:
            ev = c.run("standard", c.world([0] * 16 + [0, 1, 2, 3, 4], i))
            if not any(e[0] == "S" and e[1:3] == place for e in ev):
                ctx.violation("lost:" + key, f"`{statement}` in {mode} {cb} does not write {place}: {ev[:6]}", {"permission": i})
            ctx.count("permitted")
        else:
            ctx.count("forbidden")
    finally:
        script.forget(m)


def work(ctx):
    for i, seed in enumerate(ctx.cases()):
        ctx.mark({"seed": seed})
        if i % 5 < 2:
            permission(ctx, random.Random(f"q{seed}").randrange(len(CASES)))
        else:
            program(ctx, seed)


def replay(ctx, r):
    if "program" in r:
        kind, message = judge(ctx, r["program"], RuntimeChecks[r["checks"]])
        if kind and kind != "invalid":
            ctx.violation(kind, message, r)
    elif "permission" in r:
        permission(ctx, r["permission"])
    else:
        program(ctx, (r.get("crash") or r.get("hang"))["seed"])
