"""Random programs over the engine API of each mode, with an explicit statement of what the engine must see.

Every action yields source for the script and, side by side, model source over four primitives: R(block, index) reads
engine memory, W(block, index, v) writes it, E(op, ...) performs an engine operation and Q(op, ...) asks the engine. The
tables here are the engine's documented layout, written down again; nothing is taken from sonolus.script.
"""
import random

CALLBACKS = {
    "play": ["preprocess", "spawnOrder", "shouldSpawn", "initialize", "updateSequential", "touch", "updateParallel", "terminate"],
    "watch": ["preprocess", "spawnTime", "despawnTime", "initialize", "updateSequential", "updateParallel", "terminate"],
    "preview": ["preprocess", "render"],
    "tutorial": ["preprocess", "navigate", "update"],
}
B = {
    "play": dict(env=1000, upd=1001, touch=1002, skin=1003, part=1004, bg=1005, ui=1006, uic=1007, bucket=2003, score=2004, life=2005),
    "watch": dict(env=1000, upd=1001, skin=1002, part=1003, bg=1004, ui=1005, uic=1006, bucket=2003, score=2004, life=2005),
    "preview": dict(env=1000, canvas=1001, skin=1002, ui=1003, uic=1004),
    "tutorial": dict(env=1000, upd=1001, skin=1002, part=1003, bg=1004, ui=1005, uic=1006, instruction=2002),
}
SAFE = ["xmin", "xmax", "ymin", "ymax"]
ENV = {
    "play": ["debug", "aspect", "audio", "input", "multiplayer"] + SAFE,
    "watch": ["debug", "aspect", "audio", "input", "replay"] + SAFE,
    "preview": ["debug", "aspect"] + SAFE,
    "tutorial": ["debug", "aspect", "audio"] + SAFE,
}
UPD = {"play": ["time", "delta", "scaled", "touches"], "watch": ["time", "delta", "scaled", "skip"], "preview": [],
       "tutorial": ["time", "delta", "navigation"]}
FULL_UI = ["menu", "judgment", "combo_value", "combo_text", "primary_metric_bar", "primary_metric_value", "secondary_metric_bar", "secondary_metric_value"]
UI = {"play": FULL_UI, "watch": FULL_UI + ["progress", "progress_graph"], "preview": ["menu", "progress"],
      "tutorial": ["menu", "previous", "next", "instruction"]}
UIC = {"play": ["menu", "judgment", "combo", "primary_metric", "secondary_metric"],
       "watch": ["menu", "judgment", "combo", "primary_metric", "secondary_metric", "progress", "progress_graph"],
       "preview": ["menu", "progress"], "tutorial": ["menu", "navigation", "instruction"]}
ALL_UI = UI["watch"] + ["previous", "next", "instruction"]
ALL_UIC = ["menu", "judgment", "combo", "primary_metric", "secondary_metric", "progress", "navigation", "instruction"]
BOOLS = {"debug", "multiplayer", "replay", "skip"}
MATRIX = [0, 1, 3, 4, 5, 7, 12, 13, 15]
ELEMENT = ["a00", "a01", "a02", "a10", "a11", "a12", "a20", "a21", "a22"]
SCORE = ["perfect_multiplier", "great_multiplier", "good_multiplier"] + [
    f"consecutive_{j}_{w}" for j in ("perfect", "great", "good") for w in ("multiplier", "step", "cap")]
LIFE = [f"consecutive_{j}_{w}" for j in ("perfect", "great", "good") for w in ("increment", "step")] + ["initial", "maximum"]
TOUCH = [("id", 0), ("started", 1), ("ended", 2), ("time", 3), ("start_time", 4), ("position.x", 5), ("position.y", 6),
         ("start_position.x", 7), ("start_position.y", 8), ("delta.x", 9), ("delta.y", 10), ("velocity.x", 11), ("velocity.y", 12),
         ("speed", 13), ("angle", 14)]
TIMING = {"beat_to_bpm": "BeatToBPM", "beat_to_time": "BeatToTime", "beat_to_starting_beat": "BeatToStartingBeat",
          "beat_to_starting_time": "BeatToStartingTime", "time_to_scaled_time": "TimeToScaledTime",
          "time_to_starting_scaled_time": "TimeToStartingScaledTime", "time_to_starting_time": "TimeToStartingTime",
          "time_to_timescale": "TimeToTimeScale"}
FORMATS = {"NUMBER": 0, "PERCENTAGE": 1, "TIME": 10, "SCORE": 11, "BPM": 20, "TIMESCALE": 21, "BEAT_COUNT": 30, "MEASURE_COUNT": 31, "ENTITY_COUNT": 32}
COLORS = {"THEME": -1, "NEUTRAL": 0, "RED": 1, "GREEN": 2, "BLUE": 3, "YELLOW": 4, "PURPLE": 5, "CYAN": 6}
ALIGNS = {"LEFT": -1, "CENTER": 0, "RIGHT": 1}
SCROLLS = {"LEFT_TO_RIGHT": 0, "TOP_TO_BOTTOM": 1, "RIGHT_TO_LEFT": 2, "BOTTOM_TO_TOP": 3}

# who may write what: block kind -> callbacks, per mode
SEQ = {"play": {"preprocess", "touch", "updateSequential"}, "watch": {"preprocess", "updateSequential"}, "preview": {"preprocess"},
       "tutorial": {"preprocess", "navigate", "update"}}
WRITABLE = {k: SEQ for k in ("skin", "part", "bg")} | {k: {m: {"preprocess"} for m in B} for k in ("ui", "uic", "env", "canvas", "bucket", "score", "life")}
WRITABLE |= {"instruction": SEQ, "upd": {m: set() for m in B}, "touch": {m: set() for m in B}}

HEAD = """from vin import con, inp
from sonolus.script.bucket import Bucket, Judgment, JudgmentWindow
from sonolus.script.debug import debug_log, debug_pause
from sonolus.script.effect import Effect, EffectGroup, LoopedEffectHandle, ScheduledLoopedEffectHandle
from sonolus.script.instruction import Instruction, InstructionIcon, clear_instruction, show_instruction
from sonolus.script.interval import Interval
from sonolus.script.particle import Particle, ParticleGroup, ParticleHandle
from sonolus.script.printing import PrintColor, PrintFormat, print_number
from sonolus.script.quad import Quad, Rect
from sonolus.script.runtime import *
from sonolus.script.runtime import HorizontalAlign, ScrollDirection
from sonolus.script.sprite import Sprite, SpriteGroup
from sonolus.script.timing import *
from sonolus.script.transform import Transform2d
from sonolus.script.vec import Vec2
from sonolus.script import runtime as _rt

"""
MODEL_HEAD = """from apimodel import E, Q, R, W, inp, con, angle, judge, log

"""


class Gen:
    def __init__(self, seed, mode=None, callback=None):
        self.r = r = random.Random(f"api{seed}")
        self.seed = seed
        self.mode = mode or r.choice(["play", "play", "watch", "watch", "preview", "tutorial"])
        self.callback = callback or (
            "preprocess" if r.random() < 0.4 else r.choice(CALLBACKS[self.mode]))
        self.b = B[self.mode]
        self.src, self.mod = [], []
        self.depth = 1
        self.vars = []  # [(name, kind)]
        self.n = 0
        self.features = set()

    def can(self, kind):
        return kind in self.b and self.callback in WRITABLE[kind][self.mode]

    # emission
    def put(self, src, mod):
        ind = "    " * self.depth
        self.src += [ind + s for s in ([src] if isinstance(src, str) else src)]
        self.mod += [ind + s for s in ([mod] if isinstance(mod, str) else mod)]

    def log(self, src, mod):
        self.put(f"debug_log({src})", f"log({mod})")

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def feat(self, f):
        self.features.add(f)

    # values
    def num(self, d=2):
        r = self.r
        x = r.random()
        if d == 0 or x < 0.4:
            y = r.random()
            if y < 0.5:
                s = f"inp({r.randrange(16)})"
                return s, s
            if y < 0.6:
                s = f"con({r.randrange(16)})"
                return s, s
            if y < 0.75 and self.kind("num"):
                v = r.choice(self.kind("num"))
                return v, v
            s = repr(r.choice([0, 1, -1, 2, 0.5, -2.5, 3, r.randint(-9, 9), r.randint(-30, 30) / 4]))
            return s, s
        if x < 0.7:
            return self.query_num()
        a, b = self.num(d - 1), self.num(d - 1)
        op = r.choice("+-*")
        return f"({a[0]} {op} {b[0]})", f"({a[1]} {op} {b[1]})"

    def kind(self, k):
        return [n for n, t in self.vars if t == k]

    def flag(self):
        a, b = self.num(1), self.num(1)
        op = self.r.choice(["<", "<=", ">", ">=", "==", "!="])
        return f"({a[0]} {op} {b[0]})", f"({a[1]} {op} {b[1]})"

    def env(self, name):
        return f"R({self.b['env']}, {ENV[self.mode].index(name)})" if name in ENV[self.mode] else "0"

    def upd(self, name):
        return f"R({self.b['upd']}, {UPD[self.mode].index(name)})" if name in UPD[self.mode] else "0"

    def query_num(self):
        """A number the engine provides."""
        r, m = self.r, self.mode
        k = r.randrange(14)
        if k == 0:
            return "time()", self.upd("time")
        if k == 1:
            return "delta_time()", self.upd("delta")
        if k == 2:
            return "scaled_time()", self.upd("time" if m == "tutorial" else "scaled")
        if k == 3:
            return "prev_time()", f"({self.upd('time')} - {self.upd('delta')})"
        if k == 4:
            return "offset_adjusted_time()", f"({self.upd('time')} - {self.env('input')})"
        if k == 5:
            return r.choice([("audio_offset()", self.env("audio")), ("input_offset()", self.env("input"))])
        if k == 6:
            return "aspect_ratio()", self.env("aspect")
        if k == 7:
            f, n = r.choice([("t", "ymax"), ("b", "ymin"), ("l", "xmin"), ("r", "xmax")])
            return f"safe_area().{f}", self.env(n)
        if k == 8:
            return r.choice([("screen().t", "1"), ("screen().b", "-1"), ("screen().r", self.env("aspect")), ("screen().l", f"(-{self.env('aspect')})")])
        if k == 9:
            return "navigation_direction()", self.upd("navigation")
        if k == 10:
            f, op = r.choice(sorted(TIMING.items()))
            a = self.num(0)
            self.feat("timing:" + f)
            return f"{f}({a[0]})", f"Q({op!r}, {a[1]})"
        if k == 11:
            return self.read_place()
        if k == 12:
            n = r.choice(ALL_UIC)
            f = r.randrange(2)
            s = f"runtime_ui().{n}_config.{('scale', 'alpha')[f]}"
            self.feat("ui-config")
            return s, f"R({self.b['uic']}, {UIC[m].index(n) * 2 + f})" if n in UIC[m] else "1"
        if m == "play":
            return "len(touches())", self.upd("touches")
        return "len(touches())", "0"

    def layout(self, name):
        """[(field, offset)] of a UI layout of this mode."""
        full = self.mode in ("play", "watch")
        size = 10 if full else 9
        base = UI[self.mode].index(name) * size
        f = ["anchor.x", "anchor.y", "pivot.x", "pivot.y", "dimensions.x", "dimensions.y", "rotation", "alpha"]
        f += (["horizontal_align"] if full else []) + ["background"]
        return [(x, base + i) for i, x in enumerate(f)]

    def read_place(self):
        """A number kept in a writable place, read back."""
        r, b = self.r, self.b
        k = r.randrange(7)
        if k == 0:
            i = r.randrange(9)
            self.feat("read-skin-transform")
            return f"skin_transform().{ELEMENT[i]}", f"R({b['skin']}, {MATRIX[i]})"
        if k == 1 and "part" in b:
            i = r.randrange(9)
            self.feat("read-particle-transform")
            return f"particle_transform().{ELEMENT[i]}", f"R({b['part']}, {MATRIX[i]})"
        if k == 2 and "bg" in b:
            i = r.randrange(8)
            self.feat("read-background")
            return f"background().{('bl', 'tl', 'tr', 'br')[i // 2]}.{'xy'[i % 2]}", f"R({b['bg']}, {i})"
        if k == 3 and "score" in b:
            i = r.randrange(12)
            self.feat("read-score")
            return f"level_score().{SCORE[i]}", f"R({b['score']}, {i})"
        if k == 4 and "life" in b:
            i = r.randrange(8)
            self.feat("read-life")
            return f"level_life().{LIFE[i]}", f"R({b['life']}, {i})"
        if k == 5 and "bucket" in b:
            n, i = r.randrange(4), r.randrange(6)
            self.feat("read-bucket")
            part = ["perfect", "great", "good"][i // 2] + (".start", ".end")[i % 2]
            return f"Bucket({n}).window.{part}", f"R({b['bucket']}, {n * 6 + i})"
        if k == 5 and "canvas" in b:
            i = r.randrange(2)
            return f"canvas().{('scroll_direction', 'size')[i]}", f"R({b['canvas']}, {i})"
        n = r.choice(UI[self.mode])
        f, i = r.choice(self.layout(n))
        self.feat("read-ui")
        if f == "background":
            return f"(1 if {self.mode}_ui.{n}.background else 0)", f"(1 if R({b['ui']}, {i}) else 0)"
        return f"{self.mode}_ui.{n}.{f}", f"R({b['ui']}, {i})"

    def vec(self):
        """(source, (x model, y model)); the model expressions are used once each."""
        r = self.r
        x = r.random()
        if x < 0.15 and self.kind("vec"):
            v = r.choice(self.kind("vec"))
            return v, (f"{v}[0]", f"{v}[1]")
        if x < 0.2:
            return r.choice([("Vec2.zero()", ("0", "0")), ("Vec2.one()", ("1", "1")), ("Vec2.up()", ("0", "1")), ("Vec2.left()", ("-1", "0"))])
        a, b = self.num(1), self.num(1)
        return f"Vec2({a[0]}, {b[0]})", (a[1], b[1])

    def quad(self):
        """(source, [8 model expressions in engine order: bl, tl, tr, br])."""
        r = self.r
        x = r.random()
        if x < 0.25 and self.kind("quad"):
            v = r.choice(self.kind("quad"))
            return v, [f"{v}[{i}]" for i in range(8)]
        if x < 0.5:
            t, rr, b, l = (self.num(1) for _ in range(4))
            m = [l[1], b[1], l[1], t[1], rr[1], t[1], rr[1], b[1]]
            args = [f"t={t[0]}", f"r={rr[0]}", f"b={b[0]}", f"l={l[0]}"]
            r.shuffle(args)
            return f"Rect({', '.join(args)})", m
        if x < 0.6:
            v = r.choice(["screen()", "safe_area()"])
            if v == "screen()":
                a = self.env("aspect")
                return v, [f"(-{a})", "-1", f"(-{a})", "1", a, "1", a, "-1"]
            e = {k: self.env(k) for k in SAFE}
            return v, [e["xmin"], e["ymin"], e["xmin"], e["ymax"], e["xmax"], e["ymax"], e["xmax"], e["ymin"]]
        p = {k: self.vec() for k in ("bl", "tl", "tr", "br")}
        m = [c for k in ("bl", "tl", "tr", "br") for c in p[k][1]]
        args = [f"{k}={p[k][0]}" for k in p]
        r.shuffle(args)
        return f"Quad({', '.join(args)})", m

    def interval(self):
        a, b = self.num(1), self.num(1)
        return f"Interval({a[0]}, {b[0]})", (a[1], b[1])

    # actions
    def zs(self):
        r = self.r
        n = r.randint(0, 4)
        z = [self.num(1) for _ in range(max(n, 1))]
        if n == 0:
            s = z[0][0]
        elif n == 1:
            s = f"({z[0][0]},)"
        else:
            s = "(" + ", ".join(x[0] for x in z) + ")"
        return s, [x[1] for x in z] + ["0"] * (4 - len(z))

    def ident(self, cls, group):
        """A resource, directly or out of a group."""
        r = self.r
        x = r.random()
        if x < 0.5:
            i = self.num(0) if r.random() < 0.5 else (str(r.randrange(9)),) * 2
            return f"{cls}({i[0]})", i[1]
        s, n = r.randrange(20), r.randint(1, 5)
        if x < 0.75:
            i = r.randrange(n)
            self.feat("group-index")
            i = r.choice([(str(i),) * 2, (f"(inp({16 + i}) + 0)",) * 2])  # inputs 16.. are their own index
            get = f"[{i[0]}]" if r.random() < 0.6 else f".get_unchecked({i[0]})"
            return f"{group}({s}, {n}){get}", f"({s} + {i[1]})"
        self.feat("group-loop")
        v = self.fresh("e")
        self.put(f"for {v} in {group}({s}, {n}):", f"for {v} in range({s}, {s + n}):")
        self.depth += 1
        self.opened += 1
        return v, v

    def action(self):
        self.opened = 0
        save = list(self.vars)
        names = [n for n in dir(self) if n.startswith("do_")]
        n = self.r.choice(names)
        before = len(self.src)
        getattr(self, n)()
        if len(self.src) > before:
            self.feat(n[3:])
        if self.opened:
            self.depth -= self.opened
            self.vars = save
        self.opened = 0

    def do_draw(self):
        r = self.r
        s, i = self.ident("Sprite", "SpriteGroup")
        q, qm = self.quad()
        z, zm = self.zs()
        a, am = self.num(1)
        given_z, given_a = r.random() < 0.8, r.random() < 0.7
        kind = r.choice(["", "", "b", "t", "l", "r", "bt", "lr"])
        if kind == "":
            name, cps, n = "Draw", [], None
        else:
            name = {"b": "DrawCurvedB", "t": "DrawCurvedT", "l": "DrawCurvedL", "r": "DrawCurvedR", "bt": "DrawCurvedBT", "lr": "DrawCurvedLR"}[kind]
            cps = [self.vec() for _ in range(len(kind))]
            n = self.num(0)
            self.feat("curve:" + kind)
        pos = [q]
        if kind:
            labels = ["cp"] if len(cps) == 1 else ["cp1", "cp2"]
            if r.random() < 0.5:
                pos += [c[0] for c in cps] + [n[0]]
            else:
                pos += [f"{x}={c[0]}" for x, c in zip(labels, cps)] + [f"n={n[0]}"]
        kw = ([f"z={z}"] if given_z else []) + ([f"a={a}"] if given_a else [])
        r.shuffle(kw)
        zm = zm if given_z else ["0"] * 4
        am = am if given_a else "1"
        mid = ([n[1]] + [x for c in cps for x in c[1]]) if kind else []
        m = [i, *qm, zm[0], am, *mid, *zm[1:]]
        meth = "draw" if kind == "" else f"draw_curved_{kind}"
        self.put(f"{s}.{meth}({', '.join(pos + kw)})", f"E({name!r}, {', '.join(m)})")

    def do_available(self):
        cls, group, op = self.r.choice([("Sprite", "SpriteGroup", "HasSkinSprite"), ("Effect", "EffectGroup", "HasEffectClip"),
                                        ("Particle", "ParticleGroup", "HasParticleEffect")])
        s, i = self.ident(cls, group)
        self.log(f"{s}.is_available", f"Q({op!r}, {i})")

    def do_group_len(self):
        g = self.r.choice(["SpriteGroup", "EffectGroup", "ParticleGroup"])
        s, n = self.r.randrange(9), self.num(0)
        self.log(f"len({g}({s}, {n[0]}))", n[1])
        if self.r.random() < 0.5:
            m = self.r.randint(1, 5)
            self.log(f"{g}({s}, {m})[{m - 1}].id", str(s + m - 1))

    def do_particle(self):
        r = self.r
        if "part" not in self.b:
            return
        s, i = self.ident("Particle", "ParticleGroup")
        q, qm = self.quad()
        t = self.num(1)
        loop = r.choice([None, "True", "False", self.flag()])
        ls, lm = ("", "0") if loop is None else (f", loop={loop}", str(int(loop == "True"))) if isinstance(loop, str) else (f", {loop[0]}", loop[1])
        dur = r.choice([t[0], f"duration={t[0]}"]) if loop is None or isinstance(loop, str) else t[0]
        call, m = f"{s}.spawn({q}, {dur}{ls})", f"E('SpawnParticleEffect', {i}, {', '.join(qm)}, {t[1]}, {lm})"
        if r.random() < 0.5:
            self.put(call, m)
            return
        v = self.fresh("h")
        self.put(f"{v} = {call}", f"{v} = {m}")
        for _ in range(r.randint(0, 2)):
            self.handle(v)

    def handle(self, v):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            q, qm = self.quad()
            self.put(f"{v}.move({q})", f"E('MoveParticleEffect', {v}, {', '.join(qm)})")
        elif k == 1:
            self.put(f"{v}.destroy()", f"E('DestroyParticleEffect', {v})")
        else:
            self.log(f"{v}.id", v)

    def do_particle_handle(self):
        if "part" not in self.b:
            return
        n = self.num(0)
        v = self.fresh("h")
        self.put(f"{v} = ParticleHandle({n[0]})", f"{v} = {n[1]}")
        self.handle(v)

    def do_effect(self):
        r = self.r
        s, i = self.ident("Effect", "EffectGroup")
        a, b = self.num(1), self.num(1)
        k = r.randrange(7)
        if k == 0:
            self.put(f"{s}.play()", f"E('Play', {i}, 0)")
        elif k == 1:
            self.put(f"{s}.play({r.choice(['', 'distance='])}{a[0]})", f"E('Play', {i}, {a[1]})")
        elif k == 2:
            self.put(f"{s}.schedule({a[0]})", f"E('PlayScheduled', {i}, {a[1]}, 0)")
        elif k == 3:
            self.put(f"{s}.schedule(" + r.choice([f"{a[0]}, {b[0]}", f"distance={b[0]}, time={a[0]}"]) + ")", f"E('PlayScheduled', {i}, {a[1]}, {b[1]})")
        else:
            v = self.fresh("h")
            if r.random() < 0.5:
                self.put(f"{v} = {s}.loop()", f"{v} = E('PlayLooped', {i})")
                if r.random() < 0.7:
                    self.put(f"{v}.stop()", f"E('StopLooped', {v})")
            else:
                self.put(f"{v} = {s}.schedule_loop({a[0]})", f"{v} = E('PlayLoopedScheduled', {i}, {a[1]})")
                if r.random() < 0.7:
                    self.put(f"{v}.stop({b[0]})", f"E('StopLoopedScheduled', {v}, {b[1]})")
            if r.random() < 0.5:
                self.log(f"{v}.id", v)

    def do_timing(self):
        f, op = self.r.choice(sorted(TIMING.items()))
        a = self.num(1)
        self.feat("timing:" + f)
        self.log(f"{f}({a[0]})", f"Q({op!r}, {a[1]})")

    def do_log(self):
        self.log(*self.num(2))

    def do_which(self):
        r = self.r
        m = r.choice(["play", "watch", "preview", "tutorial"])
        k = r.randrange(5)
        pre = self.callback in ("preprocess", "spawnOrder", "spawnTime", "despawnTime")
        s, v = [(f"is_{m}()", str(m == self.mode)), ("is_preprocessing()", str(pre)), ("is_debug()", self.env("debug")),
                ("is_multiplayer()", self.env("multiplayer")) if r.random() < 0.5 else ("is_replay()", self.env("replay")), ("is_skip()", self.upd("skip"))][k]
        neg = r.random() < 0.3
        self.put([f"if {'not ' * neg}{s}:", f"    debug_log({k})", "else:", f"    debug_log({k + 10})"],
                 [f"if {'not ' * neg}{v}:", f"    log({k})", "else:", f"    log({k + 10})"])
        if r.random() < 0.4:
            self.log(f"{s} + 0", f"{v} + 0")

    def do_touches(self):
        r = self.r
        v = self.fresh("t")
        if self.mode != "play":
            self.put([f"for {v} in touches():", f"    debug_log({v}.id)"], [])
            return
        count, base = self.upd("touches"), self.b["touch"]
        parts = [(f, f"R({base}, {v} * 15 + {o})") for f, o in r.sample(TOUCH, r.randint(1, 6))]
        if r.random() < 0.5:
            i, (f, o, o2) = r.randrange(2), r.choice([("prev_position", 5, 9), ("total_delta", 5, 7)])
            parts.append((f"{f}.{'xy'[i]}", f"R({base}, {v} * 15 + {o + i}) - R({base}, {v} * 15 + {o2 + i})"))
        if r.random() < 0.2:
            parts.append(("total_angle", f"angle(R({base}, {v} * 15 + 6) - R({base}, {v} * 15 + 8), R({base}, {v} * 15 + 5) - R({base}, {v} * 15 + 7))"))
        one = r.random() < 0.3
        if one:
            i = r.randrange(3)
            self.put([f"if {i} < len(touches()):"], [f"if {i} < {count}:", f"    {v} = {i}"])
            ref = f"touches()[{i}]"
        else:
            self.put([f"for {v} in touches():"], [f"for {v} in range(int({count})):"])
            ref = v
        if r.random() < 0.3:
            parts = [p for p in parts if p[0] not in ("started", "ended")] + [("started", f"R({base}, {v} * 15 + 1)")]
        self.put([f"    debug_log({ref}.{f})" for f, _ in parts], [f"    log({m})" for _, m in parts])

    def do_transform(self):
        r = self.r
        k = r.choice(["skin", "part"])
        if not self.can(k):
            return
        e = [self.num(1) for _ in range(9)]
        src = "Transform2d(" + ", ".join(f"{n}={x[0]}" for n, x in zip(ELEMENT, e)) + ")"
        mod = [x[1] for x in e]
        if r.random() < 0.25:
            src, mod = "Transform2d.new()", ["1", "0", "0", "0", "1", "0", "0", "0", "1"]
        elif r.random() < 0.3:
            v = self.fresh("m")
            self.put(f"{v} = {src}", f"{v} = ({', '.join(mod)})")
            src, mod = v, [f"{v}[{i}]" for i in range(9)]
        f = "set_skin_transform" if k == "skin" else "set_particle_transform"
        self.put(f"{f}({src})", f"W({self.b[k]}, {MATRIX}, [{', '.join(mod)}])")

    def do_background(self):
        r = self.r
        if not self.can("bg"):
            return
        p = [self.vec() for _ in range(4)]
        args = [f"{k}={x[0]}" for k, x in zip(("bl", "tl", "tr", "br"), p)]
        r.shuffle(args)
        self.put(f"set_background(Quad({', '.join(args)}))", f"W({self.b['bg']}, range(8), [{', '.join(c for x in p for c in x[1])}])")

    def do_ui(self):
        r = self.r
        n = r.choice(ALL_UI)
        here = n in UI[self.mode]
        if r.random() < 0.15:
            self.feat("ui-available")
            self.log(f"(1 if runtime_ui().{n}.is_available else 0)", str(int(here)))
            if n in ALL_UIC:
                self.log(f"(1 if runtime_ui().{n}_config.is_available else 0)", str(int(n in UIC[self.mode])))
            return
        if not self.can("ui"):
            return
        direct = here and r.random() < 0.5
        off = dict(self.layout(n)) if here else {}
        names = ["anchor", "pivot", "dimensions", "rotation", "alpha", "horizontal_align", "background"]
        names = r.sample(names, r.randint(1, 7))
        if direct and self.mode in ("preview", "tutorial"):
            names = [x for x in names if x != "horizontal_align"]
        args, idx, vals = [], [], []
        for f in names:
            if f in ("anchor", "pivot", "dimensions"):
                s, (x, y) = self.vec()
                w = [(f + ".x", x), (f + ".y", y)]
            elif f == "horizontal_align":
                a = r.choice(sorted(ALIGNS))
                s, w = r.choice([(f"HorizontalAlign.{a}", [(f, str(ALIGNS[a]))]), (f"HorizontalAlign.{a}", [(f, str(ALIGNS[a]))])])
            elif f == "background":
                s, m = r.choice([("True", "1"), ("False", "0"), self.flag()])
                w = [(f, m)]
            else:
                s, m = self.num(1)
                w = [(f, m)]
            args.append((f, s))
            for k, m in w:
                if k in off:
                    idx.append(off[k])
                    vals.append(m)
        # arguments are evaluated in the order given, before anything is written
        if direct and r.random() < 0.4:
            self.feat("ui-assign")
            for f, s in args:
                mm = [(off[k], m) for k, m in zip([k for k in off if k.split(".")[0] == f], [vals[i] for i, j in enumerate(idx) if j in [off[k] for k in off if k.split(".")[0] == f]])]
                self.put(f"{self.mode}_ui.{n}.{f} = {s}", f"W({self.b['ui']}, {[o for o, _ in mm]}, [{', '.join(m for _, m in mm)}])")
            return
        target = f"{self.mode}_ui.{n}" if direct else f"runtime_ui().{n}"
        call = f"{target}.update({', '.join(f'{f}={s}' for f, s in args)})"
        self.put(call, f"W({self.b['ui']}, {idx}, [{', '.join(vals)}])" if idx else "pass")

    def do_ui_config(self):
        r = self.r
        n = r.choice(UIC[self.mode])
        f = r.randrange(2)
        slot = UIC[self.mode].index(n) * 2 + f
        place = f"{self.mode}_ui_configs.{n}.{('scale', 'alpha')[f]}"
        self.log(place, f"R({self.b['uic']}, {slot})")
        if self.can("uic") and r.random() < 0.5:
            a = self.num(1)
            self.put(f"{place} = {a[0]}", f"W({self.b['uic']}, [{slot}], [{a[1]}])")

    def config(self, fn, names, kind):
        r = self.r
        if not self.can(kind):
            return
        if r.random() < 0.3:
            f = r.choice(names)
            a = self.num(1)
            self.put(f"{fn}().{f} = {a[0]}", f"W({self.b[kind]}, [{names.index(f)}], [{a[1]}])")
            return
        fs = r.sample(names, r.randint(1, len(names)))
        a = [self.num(1) for _ in fs]
        self.put(f"{fn}().update({', '.join(f'{f}={x[0]}' for f, x in zip(fs, a))})",
                 f"W({self.b[kind]}, {[names.index(f) for f in fs]}, [{', '.join(x[1] for x in a)}])")

    def do_score(self):
        self.config("level_score", SCORE, "score")

    def do_life(self):
        self.config("level_life", LIFE, "life")

    def do_canvas(self):
        r = self.r
        if not self.can("canvas"):
            return
        d = r.choice(sorted(SCROLLS))
        a = self.num(1)
        k = r.randrange(3)
        args, idx, v = [(f"scroll_direction=ScrollDirection.{d}, size={a[0]}", "[0, 1]", f"[{SCROLLS[d]}, {a[1]}]"),
                        (f"size={a[0]}", "[1]", f"[{a[1]}]"), (f"ScrollDirection.{d}", "[0]", f"[{SCROLLS[d]}]")][k]
        self.put(f"canvas().update({args})", f"W({self.b['canvas']}, {idx}, {v})")

    def do_life_scheduled(self):
        if self.mode not in ("play", "watch"):
            return
        a, b = self.num(1), self.num(1)
        self.put(r"add_life_scheduled(%s, %s)" % (a[0], b[0]), f"E('AddLifeScheduled', {a[1]}, {b[1]})")

    def do_print(self):
        r = self.r
        if self.mode != "preview":
            return
        f, c, h = r.choice(sorted(FORMATS)), r.choice(sorted(COLORS)), r.choice(sorted(ALIGNS))
        v, dp, rot, al = self.num(1), self.num(0), self.num(1), self.num(1)
        an, pi, di = self.vec(), self.vec(), self.vec()
        bg = r.choice([("True", "1"), ("False", "0"), self.flag()])
        args = [("fmt", f"PrintFormat.{f}"), ("anchor", an[0]), ("pivot", pi[0]), ("dimensions", di[0])]
        opt = [("decimal_places", dp[0]), ("rotation", rot[0]), ("color", f"PrintColor.{c}"), ("alpha", al[0]),
               ("horizontal_align", f"HorizontalAlign.{h}"), ("background", bg[0])]
        opt = [o for o in opt if r.random() < 0.6]
        have = {k for k, _ in opt}
        args += opt
        r.shuffle(args)
        m = [v[1], str(FORMATS[f]), dp[1] if "decimal_places" in have else "0", *an[1], *pi[1], *di[1], rot[1] if "rotation" in have else "0",
             str(COLORS[c]) if "color" in have else "-1", al[1] if "alpha" in have else "1", str(ALIGNS[h]) if "horizontal_align" in have else "-1",
             bg[1] if "background" in have else "0"]
        self.put(f"print_number({v[0]}, {', '.join(f'{k}={s}' for k, s in args)})", f"E('Print', {', '.join(m)})")

    def do_tutorial(self):
        r = self.r
        if self.mode != "tutorial":
            return
        k = r.randrange(4)
        i = self.num(0)
        if k == 0:
            s = r.choice([f"Instruction({i[0]}).show()", f"show_instruction(Instruction({i[0]}))"])
            self.put(s, f"W(2002, [0], [{i[1]}])")
        elif k == 1:
            self.put("clear_instruction()", "W(2002, [0], [-1])")
        else:
            p = self.vec()
            e = [self.num(1) for _ in range(4)]
            a = [x[0] for x in e]
            if r.random() < 0.4:
                a = [f"{n}={x}" for n, x in zip(("size", "rotation", "z", "a"), a)]
                r.shuffle(a)
            self.put(f"InstructionIcon({i[0]}).paint({p[0]}, {', '.join(a)})", f"E('Paint', {i[1]}, {', '.join(p[1])}, {', '.join(x[1] for x in e)})")

    def do_judge(self):
        r = self.r
        iv = [self.interval() for _ in range(3)]
        src = f"JudgmentWindow(perfect={iv[0][0]}, great={iv[1][0]}, good={iv[2][0]})"
        m = [x for v in iv for x in v[1]]
        bucket = "bucket" in self.b and r.random() < 0.4
        if bucket:
            n = self.r.randrange(4)
            src, m = f"Bucket({n}).window", [f"R({self.b['bucket']}, {n * 6 + i})" for i in range(6)]
        op = r.random()
        if op < 0.25:
            k = self.num(0)
            src, m = f"({src} * {k[0]})", [f"{x} * {k[1]}" for x in m]
        elif op < 0.5:
            k = self.num(0)
            src, m = f"({src} + {k[0]})", [f"{x} + {k[1]}" for x in m]
        w = self.fresh("w")
        self.put(f"{w} = {src}", f"{w} = ({', '.join(m)})")
        self.log(f"{w}.start", f"{w}[4]")
        self.log(f"{w}.end", f"{w}[5]")
        for _ in range(r.randint(1, 2)):
            a, b = self.num(1), self.num(1)
            self.log(f"{w}.judge({a[0]}, {b[0]})", f"judge({a[1]}, {b[1]}, *{w})")
        if r.random() < 0.3:
            names = ["perfect", "great", "good"]
            fs = r.sample(names, r.randint(1, 3))
            v = [self.interval() for _ in fs]
            if not bucket:
                self.put(f"{w}.update({', '.join(f'{f}={x[0]}' for f, x in zip(fs, v))})",
                         [f"{w} = list({w})"] + [f"{w}[{2 * names.index(f)}:{2 * names.index(f) + 2}] = [{x[1][0]}, {x[1][1]}]" for f, x in zip(fs, v)])
                for i in range(6):
                    self.log(f"{w}.{names[i // 2]}.{('start', 'end')[i % 2]}", f"{w}[{i}]")
        if r.random() < 0.3:
            k = r.choice(["PERFECT", "GREAT", "GOOD", "MISS"])
            a, b = self.num(1), self.num(1)
            self.put([f"if {w}.judge({a[0]}, {b[0]}) == Judgment.{k}:", "    debug_log(7)"],
                     [f"if judge({a[1]}, {b[1]}, *{w}) == {['MISS', 'PERFECT', 'GREAT', 'GOOD'].index(k)}:", "    log(7)"])

    def do_bucket_write(self):
        r = self.r
        if not self.can("bucket"):
            return
        n = r.randrange(4)
        iv = [self.interval() for _ in range(3)]
        m = [x for v in iv for x in v[1]]
        names = ["perfect", "great", "good"]
        k = r.randrange(3)
        if k == 0:
            self.put(f"Bucket({n}).window = JudgmentWindow(" + ", ".join(f"{a}={v[0]}" for a, v in zip(names, iv)) + ")",
                     f"W({self.b['bucket']}, range({n * 6}, {n * 6 + 6}), [{', '.join(m)}])")
        elif k == 1:
            fs = r.sample(range(3), r.randint(1, 3))
            self.put(f"Bucket({n}).window.update(" + ", ".join(f"{names[i]}={iv[i][0]}" for i in fs) + ")",
                     f"W({self.b['bucket']}, {[n * 6 + 2 * i + j for i in fs for j in (0, 1)]}, [{', '.join(m[2 * i + j] for i in fs for j in (0, 1))}])")
        else:
            i = r.randrange(3)
            self.put(f"Bucket({n}).window.{names[i]} = {iv[i][0]}", f"W({self.b['bucket']}, [{n * 6 + 2 * i}, {n * 6 + 2 * i + 1}], [{m[2 * i]}, {m[2 * i + 1]}])")

    def do_var(self):
        r = self.r
        k = r.choice(["num", "vec", "quad"])
        v = self.fresh(k[0])
        if k == "num":
            s, m = self.num(2)
        elif k == "vec":
            s, m = self.vec()
            m = f"({m[0]}, {m[1]})"
        else:
            s, m = self.quad()
            m = f"({', '.join(m)})"
        self.put(f"{v} = {s}", f"{v} = {m}")
        self.vars.append((v, k))

    def do_pause(self):
        self.put("debug_pause()", "E('DebugPause')")

    # programs
    def body(self, n, nest=2):
        r = self.r
        while n > 0:
            if self.depth == 1:
                self.marks.append((len(self.src), len(self.mod)))
            x = r.random()
            if nest and x < 0.12:
                save = list(self.vars)
                c = self.flag()
                self.put(f"if {c[0]}:", f"if {c[1]}:")
                self.depth += 1
                k = r.randint(1, 3)
                self.filled(k, nest - 1)
                self.depth -= 1
                self.vars = list(save)
                if r.random() < 0.5:
                    self.put("else:", "else:")
                    self.depth += 1
                    self.filled(k, nest - 1)
                    self.depth -= 1
                    self.vars = save
                n -= k
            elif nest and x < 0.2:
                save = list(self.vars)
                v = self.fresh("i")
                k = r.choice([f"range({r.randint(1, 3)})", f"range(int(inp({r.randint(17, 19)})))" if False else f"range({r.randint(1, 2)})"])
                self.put(f"for {v} in {k}:", f"for {v} in {k}:")
                self.vars.append((v, "num"))
                self.depth += 1
                self.filled(2, nest - 1)
                self.depth -= 1
                self.vars = save
                n -= 2
            else:
                self.action()
                n -= 1

    def filled(self, n, nest):
        self.put("debug_log(99)", "log(99)")
        self.body(n, nest)

    def program(self):
        """[(source lines, model lines)] of the top-level statements."""
        self.marks = []
        self.body(self.r.randint(4, 14))
        m = self.marks + [(len(self.src), len(self.mod))]
        return [(self.src[a:c], self.mod[b:d]) for (a, b), (c, d) in zip(m, m[1:])]


def sources(parts):
    return (HEAD + "def run():\n" + "\n".join(x for a, _ in parts for x in a) + "\n    debug_log(98)\n",
            MODEL_HEAD + "def run():\n" + "\n".join(x for _, b in parts for x in b) + "\n    log(98)\n")


def refusals():
    """[(mode, callback, statement, head, written (block, index), legal)]: every place the API writes, in every callback of every mode."""
    out = []
    for m in B:
        cases = []
        for k, s, idx in (("skin", "set_skin_transform(Transform2d.new())", 0), ("part", "set_particle_transform(Transform2d.new())", 0),
                          ("bg", "set_background(Quad(bl=Vec2(1, 2), tl=Vec2(3, 4), tr=Vec2(5, 6), br=Vec2(7, 8)))", 7),
                          ("score", "level_score().update(good_multiplier=2)", 2), ("score", "level_score().consecutive_good_cap = 3", 11),
                          ("life", "level_life().update(initial=2)", 6), ("bucket", "Bucket(1).window.update(great=Interval(1, 2))", 9),
                          ("bucket", "Bucket(1).window = JudgmentWindow(perfect=Interval(1, 2), great=Interval(3, 4), good=Interval(5, 6))", 6),
                          ("canvas", "canvas().update(size=3)", 1), ("instruction", "Instruction(2).show()", 0), ("instruction", "clear_instruction()", 0)):
            if k in B[m]:
                cases.append((s, (B[m][k], idx), WRITABLE[k][m]))
        for i, n in enumerate(UI[m]):
            size = 10 if m in ("play", "watch") else 9
            cases.append((f"{m}_ui.{n}.rotation = 3", (B[m]["ui"], i * size + 6), WRITABLE["ui"][m]))
            cases.append((f"runtime_ui().{n}.update(alpha=3)", (B[m]["ui"], i * size + 7), WRITABLE["ui"][m]))
        for i, n in enumerate(UIC[m]):
            cases.append((f"{m}_ui_configs.{n}.alpha = 2", (B[m]["uic"], i * 2 + 1), WRITABLE["uic"][m]))
        name = m.capitalize()
        for i, f in enumerate(UPD[m]):
            f = {"delta": "delta_time", "scaled": "scaled_time", "touches": "touch_count", "skip": "is_skip", "navigation": "navigation_direction"}.get(f, f)
            cases.append((f"_rt._{name}RuntimeUpdate.{f} = 1", (B[m]["upd"], i), set()))
        if m == "play":
            cases.append(("touches()[0] = touches()[1]", (B[m]["touch"], 0), set()))
        if m != "preview":
            block = 2000
            cases.append(("MEM.x = inp(0) + 1", (block, 0), SEQ[m]))
        cases.append(("DAT.x = inp(0) + 1", ({"preview": 2000}.get(m, 2001), 0), {"preprocess"}))
        for s, place, legal in cases:
            for cb in CALLBACKS[m]:
                for guard in (False, True):
                    out.append((m, cb, s, place, cb in legal, guard))
    return out


DECL = """from sonolus.script.globals import level_data, level_memory


@level_memory
class MEM:
    x: float


@level_data
class DAT:
    x: float


"""
