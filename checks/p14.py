"""P14: archetype fields and level data land where the engine and the code look for them."""
import gzip
import hashlib
import json
import random

import engjudge
import enggen
import script
from optcheck import LEVELS
from sonolus.build import engine as be
from sonolus.build.level import build_level_data, package_level_data
from sonolus.script.level import LevelData, parse_external_level_data
from sonolus.script.project import BuildConfig

# what the package lists besides archetypes is judged by P17 and P11
OTHERS = ("declared-", "configuration", "mode-", "rom", "node-")
LIMITS = {"imported": 32, "exported": 32, "shared_memory": 32, "entity_memory": 64}


class Falsy(enggen.Gen):
    """Records that are false in a boolean context are values like any other."""

    def records(self):
        super().records()
        out = []
        for ln in self.out:
            out.append(ln)
            if ln.startswith("class R") and self.r.random() < 0.3:
                out += self.r.choice([["    def __bool__(self):", "        return False"], ["    def __len__(self):", "        return 0"]])
        self.out = out


def level(ctx, g, m, doc, lay, r, bad):
    """Level data written in terms of the module's classes, against what the package loads and the code reads."""
    classes = [a for a in g.archs["play"]]
    entries = {a["cname"]: x for a, x in zip(classes, doc["archetypes"])}
    n = r.choice([0, 1, 2, 5, 12, 30])
    ns = dict(vars(m))
    E = ns["E"] = []
    plan = []
    todo = []
    fresh = 0.5
    order = list(range(n))

    def value(f):
        """Constructor source and expected numbers ("ref", k) of a field's value."""
        nonlocal fresh
        out, exp = [], []
        for kind in f["t"].kinds:
            if kind == "r" and r.random() < 0.8 and n:
                k = r.randrange(n)
                out.append(f"E[{k}].ref()")
                exp.append(("ref", k))
            else:
                q = r.random()
                fresh += 1
                v = 0.0 if q < 0.15 else fresh if q < 0.8 else r.choice([1, -1, 1e-9, 2.0**40, 0.1, -fresh, True])
                if kind == "r":
                    v = int(fresh)
                out.append(v)
                exp.append(v)
        return f["t"].make(out), exp
    for k in range(n):
        a = r.choice(classes)
        given = {}
        args = []
        for f in a["all"]:
            if f["storage"] == "data" and f["loaded"] and r.random() < 0.75:
                s, exp = value(f)
                late = any(isinstance(x, tuple) for x in exp) or r.random() < 0.2
                given[f["name"]] = exp
                if late:
                    todo.append((k, f, s))
                    if r.random() < 0.3 and not any(isinstance(x, tuple) for x in exp):
                        args.append(f"{f['name']}={f['t'].make([77 if q == 'n' else 7 for q in f['t'].kinds])}")
                else:
                    args.append(f"{f['name']}={s}")
        r.shuffle(args)
        E.append(eval(f"{a['cname']}({', '.join(args)})", ns))
        plan.append((a, given))
    r.shuffle(todo)
    again = [t for t in todo if r.random() < 0.1]
    for k, f, s in todo:
        if (k, f, s) in again:  # another value first
            v, _ = value(f)
            exec(f"E[{k}].{f['name']} = {v}", ns)
        how = r.random()
        if how < 0.6 or f["t"] is enggen.NUM:
            exec(f"E[{k}].{f['name']} = {s}", ns)
        elif how < 0.8:
            exec(f"tmp = {s}\nE[{k}].{f['name']} = tmp", ns)
        else:
            exec(f"E[{k}].{f['name']} @= {s}", ns)
    # taking a value from one entity to another
    for _ in range(r.randint(0, 3)):
        pairs = [(i, j, f) for i in range(n) for j in range(n) for f in plan[i][0]["all"] if f["storage"] == "data" and f["loaded"] and f["name"] in plan[i][1] and any(f is h for h in plan[j][0]["all"])][:200]
        if pairs:
            i, j, f = r.choice(pairs)
            exec(f"E[{j}].{f['name']} = E[{i}].{f['name']}", ns)
            plan[j][1][f["name"]] = plan[i][1][f["name"]]
    if r.random() < 0.5:
        r.shuffle(order)
    flat = [E[k] for k in order]
    nested, i = [], 0
    while i < len(flat):
        w = r.randint(1, 4)
        nested.append(flat[i:i + w] if w > 1 else flat[i])
        i += w if w > 1 else 1
    arg = r.choice([nested, flat, [nested]]) if len(flat) != 1 or r.random() < 0.5 else flat[0]
    bgm = r.choice([0, -1.5, 0.25, 3])
    ld = LevelData(bgm, arg)
    if [id(e) for e in ld.entities] != [id(e) for e in flat]:
        return bad("flatten", f"{[order]} flattened to another order")
    d = build_level_data(ld)
    packed = package_level_data(ld)
    if json.loads(gzip.decompress(packed)) != json.loads(json.dumps(d)):
        bad("packaged", "the packaged level is not the built one")
    if build_level_data(ld) != d:
        bad("rebuilt", "building the level data twice gives different documents")
    d = json.loads(gzip.decompress(packed))
    if set(d) != {"bgmOffset", "entities"} or d["bgmOffset"] != bgm or len(d["entities"]) != n:
        return bad("level", f"the level holds {list(d)}, {len(d['entities'])} entities, bgmOffset {d.get('bgmOffset')}")
    names = {}
    for pos, k in enumerate(order):
        e = d["entities"][pos]
        if e["archetype"] != plan[k][0]["name"]:
            bad("level-archetype", f"entity {pos} has the archetype {e['archetype']!r}, declared {plan[k][0]['name']!r}")
        if e["name"] in names:
            bad("level-name", f"two entities are called {e['name']!r}")
        names[e["name"]] = k
    target = {k: d["entities"][pos]["name"] for pos, k in enumerate(order)}
    parsed = parse_external_level_data(r.choice([d, json.dumps(d), packed]))
    if parsed.bgm_offset != bgm or [e.archetype for e in parsed.entities] != [e["archetype"] for e in d["entities"]]:
        bad("parsed", f"parsing gives bgm offset {parsed.bgm_offset} and archetypes {[e.archetype for e in parsed.entities]}")
    for pos, k in enumerate(order):
        a, given = plan[k]
        e = d["entities"][pos]
        got = {}
        for x in e["data"]:
            if x["name"] in got or set(x) not in ({"name", "value"}, {"name", "ref"}):
                bad("level-entry", f"entity {pos} ({a['cname']}) has the entry {x} besides {got.get(x['name'])}")
            got[x["name"]] = x
        back = parsed.entities[pos].data if pos < len(parsed.entities) else {}
        if back != {x["name"]: x["value"] if "value" in x else order.index(names.get(x["ref"], -1)) if names.get(x["ref"], -1) in order else None for x in e["data"]}:
            bad("parsed", f"entity {pos} is parsed as {back} from {e['data']}")
        byindex = {x["index"]: x for x in entries[a["cname"]]["imports"]}
        byname = {x["name"]: x for x in entries[a["cname"]]["imports"]}
        known = set()
        for f in a["all"]:
            if f["storage"] != "data":
                continue
            for j in range(f["t"].size):
                at = lay.slots.get(("data", a["cname"], f["name"], j))
                if at is not None and at[0] in byindex:
                    name = byindex[at[0]]["name"]
                elif f["t"].comps == [""] and f["loaded"]:
                    name = f["data"]
                else:
                    continue
                x = got.get(name)
                known.add(name)
                default = byname.get(name, {}).get("def", 0)
                what = f"entity {pos}: component {j} of {f['name']} of {a['cname']} (import {name!r})"
                if f["name"] not in given:
                    if x is not None and x.get("value", "ref") not in (0, default, -1 if f["t"].kinds[j] == "r" else 0):
                        bad("level-value", f"{what} was not given, the level says {x}")
                    continue
                v = given[f["name"]][j]
                ctx.count("level-values")
                if isinstance(v, tuple):
                    if x is None or x.get("ref") != target[v[1]]:
                        bad("level-ref", f"{what} refers to entity {order.index(v[1])} ({target[v[1]]!r}), the level says {x}")
                    ctx.count("level-refs")
                elif (x is None and v != default) or (x is not None and x.get("value", "ref") != v):
                    bad("level-value", f"{what} is {v!r}, the level says {x}")
        for name, x in got.items():
            if name not in byname:
                bad("level-entry", f"entity {pos} ({a['cname']}) has the entry {x}, which the package does not import: {sorted(byname)}")
        # values at names whose slot no program showed
        def show(w):
            return repr(w) if isinstance(w, str) else repr(float(w))
        rest = sorted(show(x.get("value", x.get("ref"))) for nm, x in got.items() if nm not in known and x.get("value") not in (0, -1))
        want = []
        for f in a["all"]:
            if f["storage"] == "data" and f["loaded"] and f["name"] in given and f["t"].comps != [""]:
                for j, v in enumerate(given[f["name"]]):
                    at = lay.slots.get(("data", a["cname"], f["name"], j))
                    if at is None or at[0] not in byindex:
                        w = target[v[1]] if isinstance(v, tuple) else v
                        if w not in (0, -1):
                            want.append(show(w))
        if rest != sorted(want):
            bad("level-values", f"entity {pos} ({a['cname']}) lists {rest} at the other names, given {sorted(want)}")
        ctx.count("level-entities")
    # the same level written with values of its own does not depend on the one before
    ctx.count("levels")


def engine(ctx, seed):
    r = random.Random(f"p14{seed}")
    g = Falsy(f"L{seed}", modes=["play", *[x for x in ("watch", "preview") if r.random() < 0.4]] if r.random() < 0.8 else None, big=r.random() < 0.3)
    m = script.module(ctx, g.src)
    seen = set()

    def bad(k, msg):
        if not k.startswith(OTHERS) and k not in seen:
            seen.add(k)
            ctx.violation(k, f"seed {seed}: {msg}", {"engine": seed})
    try:
        early = r.random() < 0.2  # level data may be made before the first compilation
        if early and "play" in g.modes:
            build_level_data(LevelData(0, [getattr(m, a["cname"])() for a in g.archs["play"]]))
        cfg = BuildConfig(passes=LEVELS[r.choice(["minimal", "fast", "standard", "minimal"])])
        p = be.package_engine(m.data, cfg)
        docs = {x: engjudge.doc(getattr(p, f)) for x, f in dict(play="play_data", watch="watch_data", preview="preview_data", tutorial="tutorial_data").items()}
        rom, _ = engjudge.rom(p.rom)
        lays = engjudge.observe(g, docs, rom, bad, ctx.count)
        ctx.count("engines")
        ctx.count("evaluations")
        ctx.distinct(hashlib.sha1(p.play_data + p.watch_data + p.preview_data).hexdigest())
        ctx.sample({"seed": seed, "modes": g.modes, "fields": {x: [[a["cname"], [(f["name"], f["storage"], f["t"].src) for f in a["all"]]] for a in g.archs.get(x, [])][:3] for x in g.modes}})
        if "play" in g.modes:
            for _ in range(2):
                level(ctx, g, m, docs["play"], lays["play"], r, bad)
    finally:
        script.forget(m)


OVER = """
from sonolus.script.archetype import *
from sonolus.script.archetype import PlayArchetype, entity_data, entity_memory, exported, imported, shared_memory
from sonolus.script.array import Array
from sonolus.script.engine import EngineData, PlayMode
from sonolus.script.record import Record


class Two(Record):
    a: float
    b: float


"""


def over(ctx, seed):
    """Fields that do not fit in the engine's memory are refused; those that just fit are not."""
    r = random.Random(f"over{seed}")
    kind = r.choice(sorted(LIMITS))
    limit = LIMITS[kind]
    much = r.choice([0, 0, 1, 2, 5])
    total = limit + much
    parts, left, n = [], total, 0
    while left:
        size = min(left, r.choice([1, 1, 2, 2, 3, 7, 20]))
        decl = kind if kind != "imported" else r.choice(["imported", "imported", "entity_data"])
        t = {1: "float", 2: "Two"}.get(size, f"Array[float, {size}]")
        parts.append(f"    f{n}: {t} = {decl}()")
        left -= size
        n += 1
    cuts = sorted(r.randrange(len(parts) + 1) for _ in range(r.randint(0, 2)))
    src, base, last = OVER, "PlayArchetype", 0
    for i, c in enumerate([*cuts, len(parts)]):
        body = parts[last:c] or ["    pass"]
        last = c
        if i < len(cuts) and r.random() < 0.3:
            src += f"class M{i}:\n" + "\n".join(body) + "\n\n\n"
            base = f"M{i}, {base}"
        else:
            src += f"class A{i}({base}):\n" + "\n".join(body) + "\n\n\n"
            base = f"A{i}"
    name = f"A{len(cuts)}"
    src += f"data = EngineData(play=PlayMode(archetypes=[{name}]))\n"
    m = script.module(ctx, src)
    rp = {"over": seed}
    try:
        what = f"{total} numbers of {kind} ({limit} fit)"
        for way in r.sample(["build", "level"], 2):
            try:
                if way == "build":
                    be.package_engine(m.data, BuildConfig(passes=LEVELS["minimal"]))
                elif kind == "imported":
                    getattr(m, name)()
                else:
                    continue
                ok = True
            except (ValueError, TypeError, RuntimeError) as e:
                ok = False
                msg = e
            except Exception as e:
                if type(e).__name__ != "CompilationError":
                    raise
                ok, msg = False, e
            if ok and much:
                ctx.violation("oversize", f"an archetype with {what} is accepted ({way})", rp)
            elif not ok and not much:
                ctx.violation("refused", f"an archetype with {what} is refused ({way}): {msg}", rp)
            ctx.count("limits")
    finally:
        script.forget(m)


def work(ctx):
    for seed in ctx.cases():
        if random.Random(f"k{seed}").random() < 0.12:
            ctx.mark({"over": seed})
            over(ctx, seed)
        else:
            ctx.mark({"engine": seed})
            engine(ctx, seed)


def replay(ctx, r):
    r = r.get("crash") or r.get("hang") or r
    if "over" in r:
        over(ctx, r["over"])
    else:
        engine(ctx, r["engine"])
