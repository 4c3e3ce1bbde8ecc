"""Random engine sources, with a description of everything they declare.

Each callback's body is a list of actions; an action is source lines plus what executing them must do:
  ("is", event)              exactly this event
  ("log", key)               a logged number read from the memory place `key`
  ("store", key, value)      a write of value to the memory place `key`
  ("export", key, value)     ExportValue of the place's index
where a place is named, not numbered: ("data"|"memory"|"shared", class, field, component, entity) or
("raw", block, index).  What index a named place has is what the checks find out.
"""
import random

MODES = ("play", "watch", "preview", "tutorial")
PREFIX = {"play": "Play", "watch": "Watch", "preview": "Preview"}
# callback: (name in the package, may have an order, returns a value)
CBS = {
    "play": {"preprocess": ("preprocess", 1, 0), "spawn_order": ("spawnOrder", 1, 1), "should_spawn": ("shouldSpawn", 0, 1), "initialize": ("initialize", 0, 0),
             "update_sequential": ("updateSequential", 1, 0), "touch": ("touch", 1, 0), "update_parallel": ("updateParallel", 0, 0), "terminate": ("terminate", 0, 0)},
    "watch": {"preprocess": ("preprocess", 1, 0), "spawn_time": ("spawnTime", 0, 1), "despawn_time": ("despawnTime", 0, 1), "initialize": ("initialize", 0, 0),
              "update_sequential": ("updateSequential", 1, 0), "update_parallel": ("updateParallel", 0, 0), "terminate": ("terminate", 0, 0)},
    "preview": {"preprocess": ("preprocess", 1, 0), "render": ("render", 0, 0)},
}
# blocks as the engine numbers them
BLOCK = {
    "play": dict(memory=4000, data=4001, shared=4002, info=4003, despawn=4004, input=4005, score=4006, life=4007, data_array=4101, shared_array=4102, info_array=4103,
                 score_array=4106, life_array=4107, arch_life=5000, arch_score=5001, option=2002, bucket=2003, level_memory=2000, level_data=2001),
    "watch": dict(memory=4000, data=4001, shared=4002, info=4003, input=4004, score=4005, life=4006, data_array=4101, shared_array=4102, info_array=4103,
                  score_array=4105, life_array=4106, arch_life=5000, arch_score=5001, option=2002, bucket=2003, level_memory=2000, level_data=2001),
    "preview": dict(data=4000, shared=4001, info=4002, data_array=4100, shared_array=4101, info_array=4102, option=2001, level_data=2000),
    "tutorial": dict(level_memory=2000, level_data=2001, instruction=2002),
}
INFO_SIZE = {"play": 3, "watch": 3, "preview": 2}
LIMIT = {"data": 32, "memory": 64, "shared": 32, "export": 32}
WORDS = ["note", "tap", "flick", "hold", "tick", "lane", "stage", "line", "é", "日本", "#A", "a b", "it's", 'q"', "\\n", "x.y", "z[0]", "", "🎵"]
IN_BLOCK, IN_BASE = 2000, 3000


class T:
    """A value type: source text, and its numeric components as access suffixes."""

    def __init__(self, src, comps, make, kinds=None):
        self.src, self.comps, self.make = src, comps, make
        self.kinds = kinds or ["n"] * len(comps)  # n: number, r: reference to an entity

    @property
    def size(self):
        return len(self.comps)


def lit(v):
    return v if isinstance(v, str) else repr(v)


NUM = T("float", [""], lambda v: lit(v[0]))
REF = T("EntityRef[Any]", [".index"], lambda v: v[0] if isinstance(v[0], str) else f"EntityRef[Any](index={v[0]!r})", ["r"])


def vec():
    return T("Vec2", [".x", ".y"], lambda v: f"Vec2({lit(v[0])}, {lit(v[1])})")


def array(t, n):
    return T(f"Array[{t.src}, {n}]", [f"[{i}]{c}" for i in range(n) for c in t.comps],
             lambda v: f"Array[{t.src}, {n}]({', '.join(t.make(v[i * t.size:(i + 1) * t.size]) for i in range(n))})", t.kinds * n)


def record(name, fields):
    def make(v):
        out, k = [], 0
        for f, t in fields:
            out.append(f"{f}={t.make(v[k:k + t.size])}")
            k += t.size
        return f"{name}({', '.join(out)})"
    return T(name, [f".{f}{c}" for f, t in fields for c in t.comps], make, [k for _, t in fields for k in t.kinds])


class Gen:
    def __init__(self, seed, modes=None, big=False):
        self.r = random.Random(f"eng{seed}")
        self.seed = seed
        self.n = 0
        self.out = []
        self.big = big
        r = self.r
        self.modes = modes or [m for m in MODES if r.random() < 0.75] or [r.choice(MODES)]
        self.records()
        self.opts()
        self.resources()
        self.globals_()
        self.archs = {}
        for m in self.modes:
            if m != "tutorial":
                self.hierarchy(m)
        for m in self.modes:
            if m != "tutorial":
                for a in self.classes[m]:
                    self.klass(m, a)
        self.globals_cbs()
        self.engine()
        self.src = "\n".join(HEAD + self.out) + "\n"

    # -- helpers
    def line(self, s=""):
        self.out.append(s)

    def id(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def tag(self):
        self.n += 1
        return 100000 + self.n

    def val(self):
        self.n += 1
        return self.r.choice([self.n + 0.5, -self.n - 0.25, self.n + 7, float(self.n * 3)])

    def text(self):
        r = self.r
        self.n += 1
        return " ".join(r.choice(WORDS) for _ in range(r.randint(1, 3))) + (str(self.n) if r.random() < 0.9 else f"n{self.n}")

    # -- types
    def records(self):
        self.types = [NUM, NUM, NUM, vec(), REF]
        for _ in range(self.r.randint(0, 3)):
            name = self.id("R")
            fields = [(self.id("m"), self.r.choice(self.types)) for _ in range(self.r.randint(1, 3))]
            self.line(f"class {name}(Record):")
            for f, t in fields:
                self.line(f"    {f}: {t.src}")
            self.line()
            self.types.append(record(name, fields))
        for _ in range(self.r.randint(0, 2)):
            self.types.append(array(self.r.choice(self.types), self.r.randint(1, 3)))
        self.types = [t for t in self.types if t.size <= 12]

    # -- configuration
    def opts(self):
        r = self.r
        self.options = []
        if r.random() < 0.1:
            return
        self.line("@options")
        self.line("class Options:")
        if r.random() < 0.3:
            self.fallback = None
        else:
            self.fallback = None
        for i in range(r.randint(1, 7)):
            var, kind = self.id("o"), r.choice(["slider", "toggle", "select"])
            d, args = {"type": kind}, []

            def put(arg, key, value, src=None):
                args.append(f"{arg}={src or repr(value)}")
                d[key] = value
            if r.random() < 0.85:
                put("name", "name", self.text())
            else:
                d["name"] = var
            for key in ("standard", "advanced"):
                d[key] = False
                if r.random() < 0.5:
                    put(key, key, r.random() < 0.5)
            for key in ("title", "description", "scope"):
                if r.random() < 0.4:
                    put(key, key, self.text())
            if kind == "slider":
                lo = r.choice([0, -1, 0.1, -2.5, 10])
                put("min", "min", lo)
                put("max", "max", lo + r.choice([1, 2.5, 100, 0]))
                put("step", "step", r.choice([1, 0.1, 0.05, 0.25]))
                put("default", "def", r.choice([lo, d["max"], lo + 0.5, 0, -0.5]))
                if r.random() < 0.4:
                    put("unit", "unit", r.choice([self.text(), "#PERCENTAGE"]))
                default = d["def"]
            elif kind == "toggle":
                b = r.random() < 0.5
                put("default", "def", b)
                d["def"] = default = int(b)
            else:
                vs = [self.text() for _ in range(r.randint(1, 5))]
                put("values", "values", vs)
                default = r.randrange(len(vs))
                args.append(f"default={r.choice([default, vs[default]])!r}")
                d["def"] = default
            r.shuffle(args)
            self.line(f"    {var}: {dict(slider='float', toggle='bool', select='int')[kind]} = {kind}_option({', '.join(args)})")
            self.options.append((var, d, default))
        self.line()
        self.line()

    def listing(self, cls, deco, kind, group):
        """A class of named resources; returns [(expression, id)], [names]."""
        r = self.r
        if r.random() < 0.12:
            return None, [], []
        name = self.id(cls)
        self.line(f"@{deco}")
        self.line(f"class {name}:")
        self._mark = len(self.out)
        refs, names = [], []
        for _ in range(r.randint(1, 6)):
            v = self.id("v")
            q = r.random()
            if group and q < 0.3:
                ns = [self.text() for _ in range(r.randint(1, 4))]
                self.line(f"    {v}: {group[0]} = {group[1]}({ns!r})")
                refs += [(f"{name}.{v}[{j}]", len(names) + j) for j in range(len(ns))]
                refs += [(f"{name}.{v}[int(inp({j}))]", len(names) + j) for j in range(min(2, len(ns)))]
                names += ns
            elif q < 0.4 and kind[2]:
                std = r.choice(kind[2])
                self.line(f"    {v}: {kind[3]}.{std}")
                refs.append((f"{name}.{v}", len(names)))
                names.append(kind[4].get(std, "#" + std) if len(kind) > 4 else "#" + std)
            else:
                n = self.text()
                self.line(f"    {v}: {kind[0]} = {kind[1]}({n!r})")
                refs.append((f"{name}.{v}", len(names)))
                names.append(n)
        self.line()
        self.line()
        return name, refs, names

    def resources(self):
        r = self.r
        self.res = {}
        for m in self.modes:
            d = self.res[m] = {}
            if "play" in self.res and m != "play" and r.random() < 0.4:
                keep = {"watch": ("skin", "effect", "particle", "bucket"), "preview": ("skin",), "tutorial": ("skin", "effect", "particle")}[m]
                d.update({k: v for k, v in self.res["play"].items() if k in keep})
            else:
                name, refs, names = self.listing("Skin", "skin", ("Sprite", "sprite", ["NOTE_HEAD_RED", "JUDGMENT_LINE", "NOTE_TAIL_BLUE"], "StandardSprite"), ("SpriteGroup", "sprite_group"))
                mode = "default"
                if name and r.random() < 0.6:
                    mode = r.choice(["default", "standard", "lightweight"])
                    self.out.insert(self._mark, f"    render_mode: RenderMode = RenderMode.{mode.upper()}")
                d["skin"] = (name, refs, names, mode)
                if m != "preview":
                    d["effect"] = self.listing("Fx", "effects", ("Effect", "effect", ["MISS", "PERFECT"], "StandardEffect"), ("EffectGroup", "effect_group"))
                    d["particle"] = self.listing("Part", "particles", ("Particle", "particle", ["NOTE_CIRCULAR_TAP_RED", "LANE_CIRCULAR"], "StandardParticle"), ("ParticleGroup", "particle_group"))
            if m in ("play", "watch") and "bucket" not in d:
                self.buckets(d)
            if m == "tutorial":
                d["text"] = self.listing("Ins", "instructions", ("Instruction", "instruction", ["TAP", "HOLD"], "StandardInstruction"), None)
                d["icon"] = self.listing("Icon", "instruction_icons", ("InstructionIcon", "instruction_icon", ["HAND"], "StandardInstructionIcon"), None)

    def buckets(self, d):
        r = self.r
        sk = d["skin"][1]
        sk = [(e, i) for e, i in sk if "inp" not in e and not e.endswith("]")]
        if not sk or r.random() < 0.25:
            d["bucket"] = (None, [], [])
            return
        name = self.id("Buck")
        self.line("@buckets")
        self.line(f"class {name}:")
        refs, infos = [], []
        for i in range(r.randint(1, 4)):
            v = self.id("b")
            sprites, srcs = [], []
            for _ in range(r.randint(1, 3)):
                e, sid = r.choice(sk)
                s = {"id": sid}
                a = [f"sprite={e}"]
                if r.random() < 0.5:
                    e2, f2 = r.choice(sk)
                    a.append(f"fallback_sprite={e2}")
                    s["fallbackId"] = f2
                for k in "xywh":
                    s[k] = r.choice([0, 1, -2.5, 3])
                    a.append(f"{k}={s[k]!r}")
                s["rotation"] = 0
                if r.random() < 0.5:
                    s["rotation"] = r.choice([-90, 45, 0.5])
                    a.append(f"rotation={s['rotation']!r}")
                sprites.append(s)
                srcs.append(f"bucket_sprite({', '.join(a)})")
            info = {"sprites": sprites}
            u = ""
            if r.random() < 0.6:
                info["unit"] = self.text()
                u = f", unit={info['unit']!r}"
            self.line(f"    {v}: Bucket = bucket(sprites=[{', '.join(srcs)}]{u})")
            infos.append(info)
            refs.append((f"{name}.{v}", i))
        self.line()
        self.line()
        d["bucket"] = (name, refs, infos)

    def globals_(self):
        """Level memory and level data, and constant arrays."""
        r = self.r
        self.globs = []
        for deco in ("level_memory", "level_data"):
            for _ in range(r.randint(0, 2)):
                name = self.id("G")
                fs = [(self.id("g"), r.choice(self.types)) for _ in range(r.randint(1, 4))]
                self.line(f"@{deco}")
                self.line(f"class {name}:")
                for f, t in fs:
                    self.line(f"    {f}: {t.src}")
                self.line()
                self.globs.append((deco, name, fs))
        self.rom = []
        for _ in range(r.randint(0, 3)):
            name = self.id("ROM")
            vs = [r.choice([self.val(), self.val(), 0.1, 1 / 3, 1e20, -1e-20, 16777217, 0, 1, True, -0.0]) for _ in range(r.randint(2, 6))]
            self.line(f"{name} = Array({', '.join(map(repr, vs))})")
            self.rom.append((name, vs))
        self.line()

    # -- archetypes
    def field(self, storage):
        r = self.r
        kind = {"data": r.choice(["imported", "imported", "entity_data"]), "export": "exported", "memory": "entity_memory", "shared": "shared_memory"}[storage]
        t = r.choice(self.types)
        name = self.id("f")
        arg, data, default = "", name, None
        if kind in ("imported", "exported") and r.random() < 0.5:
            data = "#" + self.text() if r.random() < 0.5 else self.text()
            arg = f"name={data!r}"
        if kind == "imported" and t is NUM and r.random() < 0.35:
            default = r.choice([0, 1, -2.5, self.val()])
            arg += (", " if arg else "") + f"default={default!r}"
        style = r.random()
        if not arg and kind != "entity_data" and style < 0.3:
            decl = f"{name}: Annotated[{t.src}, {kind}]"
        elif style < 0.5:
            decl = f"{name}: Annotated[{t.src}, {kind}({arg})]"
        else:
            decl = f"{name}: {t.src} = {kind}({arg})"
        return dict(name=name, storage=storage, t=t, data=data, default=default, decl=decl, loaded=kind == "imported", src=t.src)

    def fieldset(self, mode, room):
        r = self.r
        out = []
        kinds = ["data", "data", "shared"] + (["memory", "memory"] if mode != "preview" else []) + (["export"] if mode == "play" else [])
        for _ in range(r.randint(0, 6 if not self.big else 12)):
            f = self.field(r.choice(kinds))
            if f["t"].size <= room[f["storage"]]:
                room[f["storage"]] -= f["t"].size
                out.append(f)
        if r.random() < 0.15:  # to the brim
            s = r.choice(kinds)
            while room[s] > 0:
                f = self.field(s)
                if f["t"].size > room[s]:
                    f = dict(f, t=NUM, decl=f"{f['name']}: float = {dict(data='imported', memory='entity_memory', shared='shared_memory', export='exported')[s]}()", data=f["name"], default=None, loaded=s == "data")
                    if f["t"].size > room[s]:
                        break
                room[s] -= f["t"].size
                out.append(f)
        return out

    def hierarchy(self, m):
        r = self.r
        cl = []
        mixins = []
        for _ in range(r.randint(0, 2)):
            name = self.id("Mix")
            fs = self.fieldset(m, {"data": 6, "memory": 8, "shared": 5, "export": 4})
            mixins.append(dict(name=name, fields=fs, cbs={}, mixin=True, bases=[], size={s: sum(f["t"].size for f in fs if f["storage"] == s) for s in LIMIT}))
        for _ in range(r.randint(1, 6)):
            parents = [a for a in cl]
            base = r.choice(parents) if parents and r.random() < 0.6 else None
            mro_mix = set(base["mixes"]) if base else set()
            mix = [x for x in mixins if x["name"] not in mro_mix and r.random() < 0.3]
            room = dict(base["room"]) if base else dict(LIMIT)
            fine = []
            for x in mix:
                if all(x["size"][s] <= room[s] for s in LIMIT):
                    for s in LIMIT:
                        room[s] -= x["size"][s]
                    fine.append(x)
            cname = (PREFIX[m] if r.random() < 0.3 else "") + self.id("Arch")
            a = dict(cname=cname, base=base, mix=fine, mixes=mro_mix | {x["name"] for x in fine}, fields=self.fieldset(m, room), room=room, cbs={},
                     abstract=r.random() < 0.15, mode=m)
            a["name"] = cname.removeprefix(PREFIX[m])
            a["explicit"] = r.random() < 0.5
            if a["explicit"]:
                a["name"] = self.text()
            a["scored"] = base["scored"] if base else False
            a["key"] = base["key"] if base else -1
            a["set_scored"] = r.random() < 0.4
            if a["set_scored"]:
                a["scored"] = r.random() < 0.6
            a["set_key"] = r.random() < 0.4
            if a["set_key"]:
                a["key"] = r.choice([self.n + 3, -2, 0, 1.5])
            a["all"] = (base["all"] if base else []) + [f for x in reversed(fine) for f in x["fields"]] + a["fields"]
            cl.append(a)
        for a in [a for a in cl if r.random() < 0.3]:
            for _ in range(r.randint(1, 2)):
                d = dict(a, cname=self.id("Der"), name=self.text(), scored=r.random() < 0.5, derived=a, abstract=False, base=a, mix=[], fields=[], cbs={})
                d["set_key"] = r.random() < 0.5
                if d["set_key"]:
                    d["key"] = self.n + 0.5
                cl.append(d)
        ders = [a for a in cl if a.get("derived")]
        if ders and r.random() < 0.5:
            b = r.choice(ders)
            room = dict(b["room"])
            a = dict(cname=self.id("Sub"), base=b, mix=[], mixes=b["mixes"], fields=self.fieldset(m, room), room=room, cbs={}, abstract=False, mode=m,
                     explicit=True, name=self.text(), scored=b["scored"], set_scored=False, key=b["key"], set_key=False)
            a["all"] = b["all"] + a["fields"]
            cl.append(a)
        self.classes = getattr(self, "classes", {})
        self.mixins = getattr(self, "mixins", {})
        self.classes[m] = cl
        self.mixins[m] = mixins
        reg = [a for a in cl if not a["abstract"]] or cl[-1:]
        r.shuffle(reg)
        for i, a in enumerate(reg):
            a["id"] = i
        self.archs[m] = reg
        for x in mixins:
            self.line(f"class {x['name']}:")
            for f in x["fields"]:
                self.line(f"    {f['decl']}")
            if r.random() < 0.4:
                self.callback(m, x, None, r.choice(list(CBS[m])))
            if len(x["fields"]) + len(x["cbs"]) == 0:
                self.line("    pass")
            self.line()
            self.line()

    def klass(self, m, a):
        r = self.r
        if a.get("derived"):
            key = f", key={a['key']!r}" if a["set_key"] else ""
            self.line(f"{a['cname']} = {a['derived']['cname']}.derive({a['name']!r}, is_scored={a['scored']}{key})")
            self.line()
            return
        bases = [x["name"] for x in a["mix"]] + [a["base"]["cname"] if a["base"] else PREFIX[m] + "Archetype"]
        self.line(f"class {a['cname']}({', '.join(bases)}):")
        n = len(self.out)
        if a["explicit"]:
            self.line(f"    name = {a['name']!r}")
        if a["set_scored"]:
            self.line(f"    is_scored = {a['scored']}")
        if a["set_key"]:
            self.line(f"    key = {a['key']!r}")
        for f in a["fields"]:
            self.line(f"    {f['decl']}")
        for cb in CBS[m]:
            if r.random() < 0.35:
                self.callback(m, a, a, cb)
        if len(self.out) == n:
            self.line("    pass")
        self.line()
        self.line()

    def callback(self, m, holder, a, cb):
        r = self.r
        name, ordered, returns = CBS[m][cb]
        order = 0
        self.line()
        if r.random() < 0.3:
            order = r.choice([0, 1, -3, 20]) if ordered else 0
            self.line(f"    @callback(order={order})")
        self.line(f"    def {cb}(self):")
        acts = []
        if r.random() < 0.06:
            self.line("        pass" if not returns else "        return 0")
            if returns:
                acts.append(("is", ("ret", 0.0)))
        else:
            t = self.tag()
            self.line(f"        debug_log({t})")
            acts.append(("is", ("DebugLog", float(t))))
            body = []
            for _ in range(r.randint(1, 6)):
                x = self.action(m, name, a)
                if x:
                    body.append(x)
            # reads come first: a place written earlier in the callback holds what was written
            body.sort(key=lambda x: any(e[0] in ("store", "export") for e in x[1]))
            for lines, exp in body:
                for ln in lines:
                    self.line("        " + ln)
                acts += exp
            if returns:
                v = float(self.val())
                self.line(f"        return {v!r}")
                acts.append(("is", ("ret", v)))
        holder["cbs"][cb] = (acts, order)

    def globals_cbs(self):
        r = self.r
        self.gcbs = {}

        def fn(m, name, returns):
            f = self.id("fn_")
            acts = []
            self.line(f"def {f}():")
            t = self.tag()
            self.line(f"    debug_log({t})")
            acts.append(("is", ("DebugLog", float(t))))
            body = [x for x in (self.action(m, name, None) for _ in range(r.randint(1, 6))) if x]
            body.sort(key=lambda x: any(e[0] in ("store", "export") for e in x[1]))
            for lines, exp in body:
                for ln in lines:
                    self.line("    " + ln)
                acts += exp
            if returns:
                v = float(self.val())
                self.line(f"    return {v!r}")
                acts.append(("is", ("ret", v)))
            self.line()
            self.line()
            self.gcbs[m, name] = (f, acts)
        if "watch" in self.modes:
            fn("watch", "updateSpawn", True)
        if "tutorial" in self.modes:
            for n in ("preprocess", "navigate", "update"):
                fn("tutorial", n, False)

    # -- what callbacks do
    def action(self, m, cb, a):
        r = self.r
        kinds = ["option", "sprite", "effect", "particle", "bucket", "rom", "global", "arch", "has", "byname", "state"]
        if a is not None:
            kinds += ["field"] * 10 + ["info", "input", "life"]
        if m in ("play", "watch"):
            kinds += ["spawn", "at", "at"]
        if m == "tutorial":
            kinds += ["text", "icon"] * 2
        for _ in range(6):
            x = getattr(self, "do_" + r.choice(kinds))(m, cb, a)
            if x:
                return x
        return None

    def do_option(self, m, cb, a):
        if not self.options:
            return None
        i = self.r.randrange(len(self.options))
        var, d, default = self.options[i]
        if m == "tutorial":
            return [f"debug_log(Options.{var})"], [("is", ("DebugLog", float(default)))]
        return [f"debug_log(Options.{var})"], [("log", ("raw", BLOCK[m]["option"], i))]

    def pick(self, m, kind):
        x = self.res[m].get(kind)
        return self.r.choice(x[1]) if x and x[1] else None

    def do_sprite(self, m, cb, a):
        p = self.pick(m, "skin")
        if not p or cb not in ("updateParallel", "render", "update", "navigate", "terminate", "updateSequential", "touch"):
            return None
        q = [float(self.val()) for _ in range(8)]
        z = [float(self.val()) for _ in range(self.r.randint(1, 4))]
        zs = repr(z[0]) if len(z) == 1 else repr(tuple(z))
        al = self.r.choice([0.5, 1.0, 0.25])
        z = z + [0.0] * (4 - len(z))
        quad = f"Quad(bl=Vec2({q[0]!r}, {q[1]!r}), br=Vec2({q[6]!r}, {q[7]!r}), tl=Vec2({q[2]!r}, {q[3]!r}), tr=Vec2({q[4]!r}, {q[5]!r}))"
        return [f"{p[0]}.draw({quad}, z={zs}, a={al})"], [("is", ("Draw", float(p[1]), *q, z[0], al, *z[1:]))]

    def do_effect(self, m, cb, a):
        p = self.pick(m, "effect")
        if not p:
            return None
        t, d = float(self.val()), float(self.val())
        return self.r.choice([
            ([f"{p[0]}.play({d!r})"], [("is", ("Play", float(p[1]), d))]),
            ([f"{p[0]}.play()"], [("is", ("Play", float(p[1]), 0.0))]),
            ([f"{p[0]}.schedule({t!r}, {d!r})"], [("is", ("PlayScheduled", float(p[1]), t, d))]),
            ([f"{p[0]}.loop()"], [("is", ("PlayLooped", float(p[1])))])])

    def do_particle(self, m, cb, a):
        p = self.pick(m, "particle")
        if not p:
            return None
        q = [float(self.val()) for _ in range(8)]
        t, loop = float(self.val()), self.r.random() < 0.5
        quad = f"Quad(bl=Vec2({q[0]!r}, {q[1]!r}), br=Vec2({q[6]!r}, {q[7]!r}), tl=Vec2({q[2]!r}, {q[3]!r}), tr=Vec2({q[4]!r}, {q[5]!r}))"
        return [f"{p[0]}.spawn({quad}, {t!r}, loop={loop})"], [("is", ("SpawnParticleEffect", float(p[1]), *q, t, float(loop)))]

    def do_has(self, m, cb, a):
        kind, op = self.r.choice([("skin", "HasSkinSprite"), ("effect", "HasEffectClip"), ("particle", "HasParticleEffect")])
        p = self.pick(m, kind)
        if not p:
            return None
        return [f"debug_log({p[0]}.is_available)"], [("query", op, float(p[1]))]

    def do_bucket(self, m, cb, a):
        p = self.pick(m, "bucket")
        if not p:
            return None
        k = self.r.randrange(6)
        part = ["perfect.start", "perfect.end", "great.start", "great.end", "good.start", "good.end"][k]
        if self.r.random() < 0.3:
            return [f"debug_log({p[0]}.id)"], [("is", ("DebugLog", float(p[1])))]
        return [f"debug_log({p[0]}.window.{part})"], [("log", ("raw", BLOCK[m]["bucket"], p[1] * 6 + k))]

    def do_text(self, m, cb, a):
        p = self.pick(m, "text")
        if not p:
            return None
        return [f"{p[0]}.show()"], [("is", ("S", BLOCK[m]["instruction"], 0, float(p[1])))]

    def do_icon(self, m, cb, a):
        p = self.pick(m, "icon")
        if not p:
            return None
        v = [float(self.val()) for _ in range(6)]
        return [f"{p[0]}.paint(Vec2({v[0]!r}, {v[1]!r}), {v[2]!r}, {v[3]!r}, {v[4]!r}, {v[5]!r})"], [("is", ("Paint", float(p[1]), *v))]

    def do_rom(self, m, cb, a):
        if not self.rom:
            return None
        name, vs = self.r.choice(self.rom)
        j = self.r.randrange(len(vs))
        if self.r.random() < 0.2:
            return [f"debug_log({name}[{j}])"], [("is", ("DebugLog", float(vs[j]) + 0.0))]
        return [f"debug_log({name}[int(inp({j}))])"], [("rom", float(vs[j]))]

    def do_global(self, m, cb, a):
        g = [x for x in self.globs if x[0] in BLOCK[m]]
        if not g:
            return None
        deco, name, fs = self.r.choice(g)
        f, t = self.r.choice(fs)
        j = self.r.randrange(t.size)
        w = cb in ("preprocess",) or (deco == "level_memory" and cb in ("updateSequential", "touch"))
        if w and self.r.random() < 0.5:
            v = [float(self.val()) for _ in range(t.size)]
            return [f"{name}.{f} = {t.make(v)}"] if t is NUM else [f"{name}.{f} @= {t.make(v)}"], [("store", ("glob", deco, name, f, i), v[i]) for i in range(t.size)] + [("again", t.size)] * (t is not NUM)
        return [f"debug_log({name}.{f}{t.comps[j]})"], [("log", ("glob", deco, name, f, j))]

    def do_arch(self, m, cb, a):
        if m == "tutorial" or not self.archs.get(m):
            return None
        b = self.r.choice(self.archs[m])
        q = self.r.random()
        if q < 0.5:
            return [f"debug_log({b['cname']}.id)"], [("is", ("DebugLog", float(b["id"])))]
        if q < 0.65:
            return [f"debug_log({b['cname']}.key)"], [("is", ("DebugLog", float(b["key"])))]
        if q < 0.8:
            return [f"debug_log({b['cname']}.is_scored)"], [("is", ("DebugLog", float(b["scored"])))]
        i, strict = self.r.randrange(8), self.r.random() < 0.4
        index = f"int(inp({i}))"
        if self.r.random() < 0.35:  # no entity: a reference that was never set has index -1
            k, i = i, -1 - self.r.randrange(6)
            index = f"(int(inp({k})) - {k - i})" if self.r.random() < 0.7 else str(i)
        form = self.r.choice(["{c}.is_at({i}{s})", "EntityRef[{c}](index={i}).archetype_matches({t})", "EntityRef[Any](index={i}).with_archetype({c}).archetype_matches({t})"])
        e = form.format(c=b["cname"], i=index, s=", strict=True" if strict else self.r.choice(["", ", False"]), t="strict=True" if strict else "")
        return [f"debug_log({e})"], [("is_at", m, i, b["cname"], b["id"] if strict else None)]

    def do_byname(self, m, cb, a):
        if m == "tutorial" or not self.archs.get(m):
            return None
        b = self.r.choice(self.archs[m])
        return [f"debug_log(get_archetype_by_name({b['name']!r}).{'id' if self.r.random() < 0.6 else 'key'})"], [("byname", m, b["name"])]

    def do_state(self, m, cb, a):
        """Where an entity stands, and the index and archetype of a reference."""
        if m == "tutorial" or not self.archs.get(m):
            return None
        r = self.r
        i, b = r.randrange(8), BLOCK[m]
        c = r.choice(self.archs[m])
        size = INFO_SIZE[m]
        who = r.choice([f"{c['cname']}.at(int(inp({i})))", f"EntityRef[{c['cname']}](index={i}).get()", f"EntityRef[Any](index={i}).get_as({c['cname']})"])
        place = (b["info_array"], i * size)
        if a is not None and r.random() < 0.4:
            who, place = "self", (b["info"], 0)
        q = r.random()
        if m != "preview" and q < 0.5:
            n, v = r.choice([("is_waiting", 0), ("is_active", 1), ("is_despawned", 2)] if m == "play" else [("is_active", 1)])
            return [f"debug_log({who}.{n})"], [("calc", lambda w: float(w.initial(place[0], place[1] + 2) == v))]
        if q < 0.75:
            return [f"debug_log({who}.index)"], [("log", ("raw", *place))]
        j = r.randrange(8)
        return [f"debug_log(EntityRef[Any](index=int(inp({i}))) {r.choice(['==', '!='])} EntityRef[Any](index={j}))".replace("!=", "==")], [("is", ("DebugLog", float(i == j)))]

    def do_info(self, m, cb, a):
        q = self.r.random()
        if q < 0.3:
            return ["debug_log(self.index)"], [("log", ("raw", BLOCK[m]["info"], 0))]
        if q < 0.5:
            return ["debug_log(self.id)"], [("log", ("raw", BLOCK[m]["info"], 1))]
        if q < 0.7:
            return ["debug_log(self.ref().index)"], [("log", ("raw", BLOCK[m]["info"], 0))]
        if q < 0.85:
            i, k = self.r.randrange(8), self.r.randrange(INFO_SIZE[m])
            return [f"debug_log(entity_info_at(int(inp({i}))).{['index', 'archetype_id', 'state'][k]})"], [("log", ("raw", BLOCK[m]["info_array"], i * INFO_SIZE[m] + k))]
        if m == "play":
            if cb in ("preprocess", "updateParallel", "updateSequential"):
                b = self.r.random() < 0.5
                return [f"self.despawn = {b}"], [("store", ("raw", BLOCK[m]["despawn"], 0), float(b))]
        return None

    def do_input(self, m, cb, a):
        parts = {"play": ["judgment", "accuracy", "bucket.id", "bucket_value", "haptic"], "watch": ["target_time", "bucket.id", "bucket_value"]}.get(m)
        if not parts:
            return None
        k = self.r.randrange(len(parts))
        if "bucket.id" == parts[k]:
            p = self.pick(m, "bucket")
            if not p:
                return None
            return [f"self.result.bucket @= {p[0]}"], [("store", ("raw", BLOCK[m]["input"], k), float(p[1])), ("again", 1)]
        v = float(self.val())
        if self.r.random() < 0.3:
            return [f"debug_log(self.result.{parts[k]})"], [("log", ("raw", BLOCK[m]["input"], k))]
        return [f"self.result.{parts[k]} = {v!r}"], [("store", ("raw", BLOCK[m]["input"], k), v)]

    def do_life(self, m, cb, a):
        if m not in ("play", "watch") or a is None:
            return None
        r = self.r
        k = r.randrange(4)
        part = ["perfect", "great", "good", "miss"][k] + "_increment"
        v = float(self.val())
        b = BLOCK[m]
        q = r.random()
        if q < 0.2:
            c = r.choice(self.archs[m])
            e, p = f"{c['cname']}.{r.choice(['life', 'archetype_life'])}.{part}", (b["arch_life"], c["id"] * 4 + k)
        elif q < 0.4:
            e, p = f"self.entity_life.{part}", (b["life"], k)
        elif q < 0.55:
            c = r.choice(self.archs[m])
            e, p = f"{c['cname']}.archetype_score_multiplier", (b["arch_score"], c["id"])
        elif q < 0.7:
            e, p = "self.entity_score_multiplier", (b["score"], 0)
        elif q < 0.85:
            c, i = r.choice(self.archs[m]), r.randrange(8)
            e, p = f"{c['cname']}.at(int(inp({i}))).entity_life.{part}", (b["life_array"], i * 4 + k)
        else:
            c, i = r.choice(self.archs[m]), r.randrange(8)
            e, p = f"{c['cname']}.at(int(inp({i}))).entity_score_multiplier", (b["score_array"], i)
        if cb == "preprocess" and r.random() < 0.6:
            return [f"{e} = {v!r}"], [("store", ("raw", *p), v)]
        return [f"debug_log({e})"], [("log", ("raw", *p))]

    def access(self, m, cb, c, f, expr, ent):
        """Reads or writes of one field of class c, through the expression."""
        r = self.r
        t, st = f["t"], f["storage"]
        v = [float(self.val()) for _ in range(t.size)]
        if st == "export":
            if ent is not None or m != "play":
                return None
            return [f"{expr}.{f['name']} = {t.make(v)}"], [("export", (c["cname"], f["name"], j), v[j]) for j in range(t.size)]
        if st == "memory" and ent is not None:
            return None
        may = {"data": cb == "preprocess", "shared": cb in ("preprocess", "updateSequential", "touch"), "memory": True}[st]

        def key(j):
            return (st, c["cname"], f["name"], j, ent)
        q = r.random()
        if may and q < 0.5:
            if q < 0.25 or t is NUM:
                op = "=" if r.random() < 0.6 or t is NUM else "@="
                # after `x @= y` Python assigns the result to the attribute, which may store the same once more
                return [f"{expr}.{f['name']} {op} {t.make(v)}"], [("store", key(j), v[j]) for j in range(t.size)] + [("again", t.size)] * (op == "@=")
            j = r.randrange(t.size)
            return [f"{expr}.{f['name']}{t.comps[j]} = {v[j]!r}"], [("store", key(j), v[j])]
        if t.src.startswith("Array[") and r.random() < 0.3:  # an element chosen at run time
            j = r.randrange(t.size)
            i, _, rest = t.comps[j][1:].partition("]")
            if may and r.random() < 0.5:
                return [f"{expr}.{f['name']}[int(inp({i}))]{rest} = {v[j]!r}"], [("store", key(j), v[j])]
            return [f"debug_log({expr}.{f['name']}[int(inp({i}))]{rest})"], [("log", key(j))]
        js = sorted(r.sample(range(t.size), r.randint(1, min(3, t.size))))
        if t.size > 1 and r.random() < 0.3:
            n = self.id("w")
            return [f"{n} = {expr}.{f['name']}"] + [f"debug_log({n}{t.comps[j]})" for j in js], [("log", key(j)) for j in js]
        return [f"debug_log({expr}.{f['name']}{t.comps[j]})" for j in js], [("log", key(j)) for j in js]

    def do_field(self, m, cb, a):
        fs = a["all"]
        if not fs:
            return None
        return self.access(m, cb, a, self.r.choice(fs), "self", None)

    def do_at(self, m, cb, a):
        cl = [c for c in self.archs[m] if any(f["storage"] in ("data", "shared") for f in c["all"])]
        if not cl:
            return None
        c = self.r.choice(cl)
        f = self.r.choice([f for f in c["all"] if f["storage"] in ("data", "shared")])
        i = self.r.randrange(8)
        idx = self.r.choice([f"int(inp({i}))", str(i)])
        e = self.r.choice([f"{c['cname']}.at({idx})", f"EntityRef[{c['cname']}](index={idx}).get()", f"EntityRef[Any](index={idx}).get_as({c['cname']})",
                           f"EntityRef[{c['cname']}](index={idx}).get(check=False)", f"EntityRef[Any](index={idx}).with_archetype({c['cname']}).get()"])
        if a is c and self.r.random() < 0.3:
            return self.access(m, cb, c, f, "self.ref().get()", "self")
        return self.access(m, cb, c, f, e, i)

    def do_spawn(self, m, cb, a):
        if m != "play" or cb in ("spawnOrder", "shouldSpawn"):
            return None
        c = self.r.choice(self.archs[m])
        mem = [f for f in c["all"] if f["storage"] == "memory"]
        vals, args = {}, []
        for f in mem:
            if self.r.random() < 0.75:
                v = [float(self.val()) for _ in range(f["t"].size)]
                args.append(f"{f['name']}={f['t'].make(v)}")
            else:
                v = [0.0] * f["t"].size
            for j, x in enumerate(v):
                vals[f["name"], j] = x
        self.r.shuffle(args)
        return [f"{c['cname']}.spawn({', '.join(args)})"], [("spawn", c["cname"], c["id"], vals)]

    # -- the engine
    def ui(self):
        r = self.r
        names = {"scope": "scope", "primary_metric": "primaryMetric", "secondary_metric": "secondaryMetric", "judgment_error_style": "judgmentErrorStyle",
                 "judgment_error_placement": "judgmentErrorPlacement", "judgment_error_min": "judgmentErrorMin"}
        vis = ["menu", "judgment", "combo", "primary_metric", "secondary_metric", "progress", "tutorial_navigation", "tutorial_instruction"]

        def camel(s):
            h, *t = s.split("_")
            return h + "".join(x.capitalize() for x in t)
        d = {camel(v) + "Visibility": {"scale": 1.0, "alpha": 1.0} for v in vis}
        d.update(primaryMetric="arcade", secondaryMetric="life", judgmentErrorStyle="late", judgmentErrorPlacement="top", judgmentErrorMin=0.0,
                 judgmentAnimation={"scale": {"from": 0, "to": 1, "duration": 0.1, "ease": "outCubic"}, "alpha": {"from": 1, "to": 0, "duration": 0.3, "ease": "none"}},
                 comboAnimation={"scale": {"from": 1.2, "to": 1, "duration": 0.2, "ease": "inCubic"}, "alpha": {"from": 1, "to": 1, "duration": 0, "ease": "none"}})
        args = []
        if r.random() < 0.5:
            metrics = ["arcade", "arcadePercentage", "accuracy", "accuracyPercentage", "life", "perfect", "perfectPercentage", "greatGoodMiss", "greatGoodMissPercentage", "miss", "missPercentage", "errorHeatmap"]

            def enum(c, s):
                return f"{c}." + "".join("_" + ch if ch.isupper() else ch.upper() for ch in s)
            for k, c, vs in (("primary_metric", "UiMetric", metrics), ("secondary_metric", "UiMetric", metrics),
                             ("judgment_error_style", "UiJudgmentErrorStyle", ["none", "late", "early", "plus", "minus", "arrowUp", "arrowDown", "arrowLeft", "arrowRight", "triangleUp", "triangleDown", "triangleLeft", "triangleRight"]),
                             ("judgment_error_placement", "UiJudgmentErrorPlacement", ["left", "right", "leftRight", "top", "bottom", "topBottom", "center"])):
                if r.random() < 0.5:
                    v = r.choice(vs)
                    d[names[k]] = v
                    args.append(f"{k}={enum(c, v)}")
            if r.random() < 0.5:
                d["scope"] = self.text()
                args.append(f"scope={d['scope']!r}")
            if r.random() < 0.5:
                d["judgmentErrorMin"] = r.choice([0.02, 5])
                args.append(f"judgment_error_min={d['judgmentErrorMin']!r}")
            for v in vis:
                if r.random() < 0.3:
                    s, al = r.choice([0.5, 1.5]), r.choice([0.25, 0.75])
                    d[camel(v) + "Visibility"] = {"scale": s, "alpha": al}
                    args.append(f"{v}_visibility=UiVisibility(scale={s}, alpha={al})")
            eases = ["linear", "none", "inSine", "outQuad", "inOutCubic", "outInQuart", "inQuint", "outExpo", "inOutCirc", "outInBack", "outElastic"]
            for v in ("judgment", "combo"):
                if r.random() < 0.4:
                    tw, dd = [], {}
                    for k in ("scale", "alpha"):
                        a, b, c, e = r.choice([0, 0.5]), r.choice([1, 2.5]), r.choice([0.1, 3]), r.choice(eases)
                        tw.append(f"{k}=UiAnimationTween({a}, {b}, {c}, {enum('EaseType', e)})")
                        dd[k] = {"from": a, "to": b, "duration": c, "ease": e}
                    d[v + "Animation"] = dd
                    args.append(f"{v}_animation=UiAnimation({', '.join(tw)})")
        self.ui_doc = d
        return f"UiConfig({', '.join(args)})"

    def engine(self):
        args = [f"ui={self.ui()}"]
        if self.options:
            args.append("options=Options")

        def rs(m, *kinds):
            pl = dict(skin="skin", effect="effects", particle="particles", bucket="buckets", text="instructions", icon="instruction_icons")
            return [f"{pl[k]}={self.res[m][k][0]}" for k in kinds if self.res[m].get(k) and self.res[m][k][0]]
        for m in self.modes:
            a = [f"archetypes=[{', '.join(x['cname'] for x in self.archs[m])}]"] if m != "tutorial" else []
            if m == "play":
                a += rs(m, "skin", "effect", "particle", "bucket")
            elif m == "watch":
                a += rs(m, "skin", "effect", "particle", "bucket") + [f"update_spawn={self.gcbs[m, 'updateSpawn'][0]}"]
            elif m == "preview":
                a += rs(m, "skin")
            else:
                a += rs(m, "skin", "effect", "particle", "text", "icon") + [f"{n}={self.gcbs[m, n][0]}" for n in ("preprocess", "navigate", "update")]
            args.append(f"{m}={m.capitalize()}Mode({', '.join(a)})")
        self.line(f"data = EngineData({', '.join(args)})")

    # -- what Python's own rules say about a class
    def mro(self, a):
        out = []
        while a is not None:
            out.append(a)
            if not a.get("derived"):
                out += a["mix"]
            a = a["base"]
        return out

    def callbacks(self, a):
        """{python name: (actions, order)} in effect for the archetype."""
        res = {}
        for k in reversed(self.mro(a)):
            res.update(k["cbs"])
        return res


HEAD = ["from typing import Annotated, Any", "from vin import inp", "from sonolus.script.archetype import *",
        "from sonolus.script.archetype import EntityRef, PlayArchetype, PreviewArchetype, WatchArchetype, callback, entity_data, entity_info_at, entity_memory, exported, get_archetype_by_name, imported, shared_memory",
        "from sonolus.script.array import Array", "from sonolus.script.bucket import Bucket, bucket, bucket_sprite, buckets", "from sonolus.script.debug import debug_log",
        "from sonolus.script.effect import Effect, EffectGroup, StandardEffect, effect, effect_group, effects",
        "from sonolus.script.engine import EngineData, PlayMode, PreviewMode, TutorialMode, WatchMode",
        "from sonolus.script.globals import level_data, level_memory",
        "from sonolus.script.instruction import Instruction, InstructionIcon, StandardInstruction, StandardInstructionIcon, instruction, instruction_icon, instruction_icons, instructions",
        "from sonolus.script.options import options, select_option, slider_option, toggle_option",
        "from sonolus.script.particle import Particle, ParticleGroup, StandardParticle, particle, particle_group, particles",
        "from sonolus.script.quad import Quad", "from sonolus.script.record import Record",
        "from sonolus.script.sprite import RenderMode, Skin, Sprite, SpriteGroup, StandardSprite, skin, sprite, sprite_group",
        "from sonolus.script.ui import EaseType, UiAnimation, UiAnimationTween, UiConfig, UiJudgmentErrorPlacement, UiJudgmentErrorStyle, UiMetric, UiVisibility",
        "from sonolus.script.vec import Vec2", "", ""]
