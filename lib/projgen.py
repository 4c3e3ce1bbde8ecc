"""A project that is edited again and again: a description, the files it stands for, and random edits of it."""
import copy
import json
import random

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta"]


class Spec:
    def __init__(self, seed):
        r = self.r = random.Random(f"proj{seed}")
        self.n = 0
        self.s = dict(
            consts={f"C{i}": r.randint(1, 50) for i in range(3)},
            tables={"T0": [r.randint(0, 99) / 4 for _ in range(r.randint(2, 6))]},
            record=["x", "y"],
            helpers=[], archs=[], sprites=["SA", "SB"], options=[["oa", 2, 10], ["ob", 0, 5]], globals=["ga", "gb"],
            levels=[], name="eng", title="T", gap=0, files=["helpers"], resources="resources",
            streams=[["st0", "float"], ["st1", "float"]], walk=[1, 2], res={}, converter=None, override=True, subtitle="s", late=False)
        for _ in range(r.randint(2, 4)):
            self.add_helper()
        for _ in range(r.randint(1, 3)):
            self.add_arch()
        for _ in range(r.randint(0, 2)):
            self.add_level()
        for c in ("skins", "backgrounds", "effects", "particles"):
            self.s["res"][f"{c}/p0/item.json"] = json.dumps({"title": c})
        for _ in range(r.randint(0, 2)):
            self.res_level()

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # parts
    def body(self):
        """Lines of code over a and b."""
        r, s = self.r, self.s
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.randrange(17)
            c = r.choice(sorted(s["consts"]))
            t = r.choice(sorted(s["tables"]))
            out.append([f"a = a + {r.randint(1, 9)}", f"b = b * consts.{c}", f"a = a + consts.{t}[int(b) % {len(s['tables'][t])}]",
                        f"if a > consts.{c}:\n        b = b - 1", f"for i in range({r.randint(1, 4)}):\n        a = a + i * b",
                        f"assert a < 1e6, 'limit {r.choice(WORDS)}'", f"q = rec.R({', '.join(['b', *['a'] * (len(s['record']) - 1)])})\n    a = a + q.{r.choice(s['record'])} + q.total()",
                        "a, b = b, a + 1", "a = a + ease_out_quad(b / 100)", f"strm.S.{r.choice(s['streams'])[0]}[b] = a", f"v = VarArray[float, 4].new()\n    v.append(a)\n    v.append({r.randint(0, 9)})\n    b = b + v[-1] + len(v)",
                        f"a = a + sum(k * {r.randint(2, 5)} for k in base.walk(3))", f"match a:\n        case {r.randint(0, 5)}:\n            b = b + 1\n        case _:\n            b = b + 2",
                        f"def inner(c):\n        return c * {r.randint(2, 9)} + b\n    a = inner(a)", f"debug_log(a + {r.randint(0, 99)})", f"a = glob.G.{r.choice(s['globals'])} + 1", f"b = b + opts.Options.{r.choice(s['options'])[0]}"][k])
        return out

    def add_helper(self):
        s = self.s
        s["helpers"].append({"name": self.fresh("h"), "body": self.body(), "file": self.r.choice(s["files"]), "default": self.r.randint(0, 5), "kind": self.r.choice(["def", "def", "lambda"])})

    def add_arch(self):
        s, r = self.s, self.r
        s["archs"].append({"cls": self.fresh("A"), "name": self.fresh("arch"), "base": r.choice(["PlayArchetype", "Base"]), "imports": [self.fresh("i") for _ in range(r.randint(1, 3))], "mem": [self.fresh("m") for _ in range(r.randint(0, 2))],
                           "cbs": {cb: self.calls() for cb in r.sample(["preprocess", "update_sequential", "update_parallel", "touch"], r.randint(1, 3))}})

    def calls(self):
        s, r = self.s, self.r
        h = lambda: r.choice(s["helpers"])["name"]  # noqa: E731
        return [r.choice([f"debug_log(use({h()!r}, 1, 2))", f"debug_log(self.$ + {r.randint(0, 9)})", f"debug_log(use({h()!r}, self.$))", "skin.Skin.@.draw(Rect(t=1, r=1, b=0, l=0).as_quad(), z=self.$)",
                          f"notify('note {r.choice(WORDS)}')", f"assert self.$ != {r.randint(0, 9)}, '{r.choice(WORDS)}'", f"glob.G.{r.choice(s['globals'])} = self.$"]) for _ in range(r.randint(1, 4))]

    def add_level(self):
        s, r = self.s, self.r
        s["levels"].append({"name": self.fresh("lv"), "rating": r.randint(1, 30), "ents": [[r.choice(s["archs"])["cls"], r.randint(0, 40) / 4] for _ in range(r.randint(0, 3))], "bgm": r.choice([None, "x", "y"])})

    def res_level(self):
        s, r = self.s, self.r
        n = self.fresh("old")
        data = {"bgmOffset": r.randint(0, 9) / 2, "entities": [{"archetype": "#BPM_CHANGE", "data": [{"name": "#BEAT", "value": 0}, {"name": "#BPM", "value": r.randint(60, 200)}]}]}
        s["res"][f"levels/{n}/item.json"] = json.dumps({"title": n, "engine": r.choice(["src", "other"]), **{f"use{k}": {"useDefault": True} for k in ("Skin", "Background", "Effect", "Particle")}})
        s["res"][f"levels/{n}/data.json"] = json.dumps(data)
        s["res"]["engines/src/item.json"] = s["res"]["engines/other/item.json"] = json.dumps({"title": "old"})

    # files
    def render(self):
        s = self.s
        out = {"__init__.py": ""}
        out["consts.py"] = "from sonolus.script.array import Array\n\n" + "".join(f"{k} = {v}\n" for k, v in s["consts"].items()) + "".join(f"{k} = Array({', '.join(map(repr, v))})\n" for k, v in s["tables"].items())
        out["rec.py"] = "from sonolus.script.record import Record\n\n\nclass R(Record):\n" + "".join(f"    {f}: float\n" for f in s["record"]) + f"\n    def total(self):\n        return self.{s['record'][0]} * {len(s['record'])}\n"
        out["glob.py"] = "from sonolus.script.globals import level_memory\n\n\n@level_memory\nclass G:\n" + "".join(f"    {g}: float\n" for g in s["globals"])
        out["strm.py"] = "from sonolus.script.stream import Stream, StreamGroup, streams\nfrom proj.rec import R\n\n\n@streams\nclass S:\n" + "".join(f"    {n}: Stream[{t}]\n" for n, t in s["streams"])
        out["base.py"] = ("from sonolus.script.archetype import PlayArchetype, imported\nfrom sonolus.script.debug import debug_log\n\n\ndef walk(n):\n    for i in range(n):\n"
                          + f"        yield i * {s['walk'][0]}\n    yield {s['walk'][1]}\n\n\nclass Base(PlayArchetype):\n    common: float = imported()\n\n    def should_spawn(self):\n        debug_log({s['walk'][0]})\n        return self.common > {s['walk'][1]}\n")
        out["opts.py"] = "from sonolus.script.options import options, slider_option\n\n\n@options\nclass Options:\n" + "".join(f"    {n}: float = slider_option(name={n!r}, default={d}, min=0, max={m}, step=1)\n" for n, d, m in s["options"])
        out["skin.py"] = "from sonolus.script.sprite import skin, sprite\nfrom sonolus.script.sprite import StandardSprite\n\n\n@skin\nclass Skin:\n" + "".join(f"    {n} = sprite({n + '!'!r})\n" for n in s["sprites"])
        out["skin.py"] = out["skin.py"].replace("    ", "    ").replace(" = sprite", ": Sprite = sprite").replace("import skin, sprite\n", "import Sprite, skin, sprite\n").replace("from sonolus.script.sprite import StandardSprite\n", "")
        for f in s["files"]:
            t = "from sonolus.script.debug import debug_log, notify\nfrom sonolus.script.containers import VarArray\nfrom sonolus.script.easing import ease_out_quad\nfrom proj import base, consts, glob, opts, rec, strm\n\n" + "#\n" * s["gap"]
            for h in s["helpers"]:
                if h["file"] == f:
                    if h["kind"] == "lambda":
                        t += f"{h['name']} = lambda a, b={h['default']}: a * {len(h['body'])} + b + consts.{sorted(s['consts'])[0]}\n\n\n"
                    else:
                        t += f"def {h['name']}(a, b={h['default']}):\n" + "".join(f"    {x}\n" for x in h["body"]) + "    return a + b\n\n\n"
            out[f + ".py"] = t
        t = "from sonolus.script.archetype import PlayArchetype, imported, entity_memory\nfrom sonolus.script.debug import debug_log, notify\nfrom sonolus.script.quad import Rect\nfrom proj import consts, glob, skin\nfrom proj.base import Base\n"
        t += "".join(f"from proj.{f} import {', '.join(h['name'] for h in s['helpers'] if h['file'] == f)}\n" for f in s["files"] if any(h["file"] == f for h in s["helpers"]))
        t += "\n\n"
        for a in s["archs"]:
            t += f"class {a['cls']}({a['base']}):\n    name = {a['name']!r}\n" + "".join(f"    {i}: float = imported()\n" for i in a["imports"]) + "".join(f"    {m}: float = entity_memory()\n" for m in a["mem"])
            for cb, lines in a["cbs"].items():
                t += f"\n    def {cb}(self):\n"
                for i, x in enumerate(lines):
                    x = x.replace("$", (a["imports"] + (a["mem"] if cb != "preprocess" or True else []))[i % len(a["imports"])]).replace("@", s["sprites"][i % len(s["sprites"])])
                    if "use(" in x:
                        name = x.split("'")[1]
                        if not any(h["name"] == name for h in s["helpers"]):
                            name = s["helpers"][0]["name"]
                        x = x.replace("use('" + x.split("'")[1] + "', ", name + "(")
                    if "glob.G." in x:
                        g = x.split("glob.G.")[1].split(" ")[0]
                        if g not in s["globals"]:
                            x = x.replace(g, s["globals"][0])
                        if cb == "update_parallel" or cb == "touch" and False:
                            x = "debug_log(3)"
                    t += f"        {x}\n"
            t += "\n\n"
        out["archs.py"] = t
        lv = "".join(f"    Level(name={x['name']!r}, title={x['name']!r}, rating={x['rating']}, bgm={x['bgm'].encode() if x['bgm'] else None!r}, data=LevelData({len(x['ents'])}, [{', '.join(f'archs.{c}({i}={v})' for c, v, i in self.ents(x))}])),\n" for x in s["levels"])
        out["levels.py"] = "from sonolus.script.level import Level, LevelData\nfrom proj import archs\n\n" + ("def levels():\n    return [\n" + lv + "    ]\n" if s["late"] else "levels = [\n" + lv + "]\n")
        conv = ""
        if s["converter"]:
            k, d = s["converter"]
            conv = f"\n\ndef convert(data):\n    return LevelData(data.bgm_offset + {d}, [BpmChange(beat=e.data['#BEAT'], bpm=e.data['#BPM']) for e in data.entities])\n"
        out["project.py"] = f'''from sonolus.script.engine import Engine, EngineData, PlayMode
from sonolus.script.level import BpmChange, LevelData
from sonolus.script.project import Project
from proj import archs, opts, skin
from proj.levels import levels
{conv}

project = Project(
    engine=Engine(name={s["name"]!r}, title={s["title"]!r}, subtitle={s["subtitle"]!r}, data=EngineData(ui=None, options=opts.Options, play=PlayMode(archetypes=[{", ".join("archs." + a["cls"] for a in s["archs"])}], skin=skin.Skin))),
    levels=levels,
    resources={s["resources"]!r},
    converters={{{f"{s['converter'][0]!r}: convert" if s["converter"] else ""}}},
)
'''
        return out, {f"{s['resources']}/{k}": v for k, v in s["res"].items()}

    def ents(self, lv):
        out = []
        for c, v in lv["ents"]:
            a = next((a for a in self.s["archs"] if a["cls"] == c), self.s["archs"][0])
            out.append((a["cls"], v, a["imports"][0]))
        return out

    # edits: (what, fails or not)
    def edit(self):
        r, s = self.r, self.s
        kinds = ["const", "table", "body", "body", "body", "default", "gap", "helper", "drop-helper", "calls", "calls", "arch", "drop-arch", "order", "rename-arch", "field", "record", "sprite", "option", "global",
                 "level", "drop-level", "rename-level", "level-data", "engine-name", "title", "split", "merge", "stream", "walk", "walk", "base", "res", "drop-res", "res-data", "move-res", "converter", "late", "nothing", "swap", "rename-helper"]
        for _ in range(30):
            k = r.choice(kinds)
            h = r.choice(s["helpers"])
            a = r.choice(s["archs"])
            olds = sorted(x for x in s["res"] if x.startswith("levels/") and x.endswith("data.json"))
            if k == "const":
                s["consts"][r.choice(sorted(s["consts"]))] = r.randint(51, 99)
            elif k == "table":
                t = s["tables"]["T0"]
                t[r.randrange(len(t))] = r.randint(0, 99) / 4
            elif k == "body":
                h["body"] = self.body()
            elif k == "default":
                h["default"] = r.randint(6, 9)
            elif k == "gap":
                s["gap"] = (s["gap"] + r.choice([1, 2, 7])) % 10
            elif k == "helper":
                self.add_helper()
            elif k == "drop-helper" and len(s["helpers"]) > 1:
                s["helpers"].remove(h)
            elif k == "rename-helper":
                h["name"] = self.fresh("h")
            elif k == "calls":
                a["cbs"][r.choice(sorted(a["cbs"]))] = self.calls()
            elif k == "arch":
                self.add_arch()
            elif k == "drop-arch" and len(s["archs"]) > 1:
                s["archs"].remove(a)
            elif k == "order":
                r.shuffle(s["archs"])
            elif k == "rename-arch":
                a["name"] = self.fresh("arch")
            elif k == "field":
                a["imports"].insert(0, self.fresh("i"))
            elif k == "record":
                if len(s["record"]) > 2:
                    continue
                s["record"].append("z")
            elif k == "sprite":
                s["sprites"].insert(r.randrange(3), self.fresh("S"))
            elif k == "option":
                o = r.choice(s["options"])
                o[1:] = [r.randint(0, 5), r.randint(5, 9)]
            elif k == "global":
                s["globals"].insert(0, self.fresh("g"))
            elif k == "level":
                self.add_level()
            elif k == "drop-level" and s["levels"]:
                s["levels"].pop(r.randrange(len(s["levels"])))
            elif k == "rename-level" and s["levels"]:
                r.choice(s["levels"])["name"] = self.fresh("lv")
            elif k == "level-data" and s["levels"]:
                x = r.choice(s["levels"])
                x["rating"] += 1
                x["ents"].append([a["cls"], r.randint(0, 9)])
            elif k == "engine-name":
                s["name"] = self.fresh("eng")
            elif k == "title":
                s["title"] = self.fresh("title")
            elif k == "split" and len(s["files"]) < 3:
                f = self.fresh("more")
                s["files"].append(f)
                h["file"] = f
            elif k == "merge" and len(s["files"]) > 1:
                f = s["files"].pop(0)
                for x in s["helpers"]:
                    if x["file"] == f:
                        x["file"] = s["files"][0]
            elif k == "stream":
                s["streams"].insert(0, [self.fresh("st"), "float"])
            elif k == "walk":
                s["walk"][r.randrange(2)] = r.randint(3, 9)
            elif k == "base":
                a["base"] = "Base" if a["base"] != "Base" else "PlayArchetype"
            elif k == "res":
                self.res_level()
            elif k == "drop-res" and olds:
                x = r.choice(olds).rsplit("/", 1)[0]
                for n in ("item.json", "data.json"):
                    del s["res"][f"{x}/{n}"]
            elif k == "res-data" and olds:
                x = r.choice(olds)
                d = json.loads(s["res"][x])
                d["bgmOffset"] += 1
                s["res"][x] = json.dumps(d)
            elif k == "move-res":
                s["resources"] = self.fresh("res")
            elif k == "converter":
                s["converter"] = r.choice([None, ["src", r.randint(1, 9)], ["other", r.randint(1, 9)], [None, r.randint(1, 9)]])
            elif k == "late":
                s["late"] = not s["late"]
            elif k == "nothing":
                pass
            elif k == "swap" and len(s["helpers"]) > 1:
                i, j = r.sample(range(len(s["helpers"])), 2)
                x, y = s["helpers"][i], s["helpers"][j]
                x["body"], y["body"] = y["body"], x["body"]
            else:
                continue
            return k
        return "nothing"

    def snapshot(self):
        return copy.deepcopy(self.s)

    def spoil(self, files, res):
        """A change that makes the build fail."""
        r = self.r
        k = r.choice(["syntax", "import", "name", "compile", "compile", "undefined", "duplicate", "value", "resource", "level", "missing", "exit"])
        if k == "syntax":
            f = r.choice(["helpers.py", "archs.py", "project.py", "consts.py"])
            f = f if f in files else "archs.py"
            files[f] += "\ndef broken(:\n"
        elif k == "import":
            files["archs.py"] = "import proj.no_such_module\n" + files["archs.py"]
        elif k == "name":
            files["project.py"] += "\nundefined_name\n"
        elif k in ("compile", "undefined"):
            i = files["archs.py"].index("\n    def ")
            i = files["archs.py"].index("\n", i + 1) + 1
            files["archs.py"] = files["archs.py"][:i] + ("        with open('x') as f:\n            pass\n" if k == "compile" else "        debug_log(no_such_name)\n") + files["archs.py"][i:]
        elif k == "duplicate":
            files["archs.py"] += "class Bad(PlayArchetype):\n    x: str = imported()\n"
            files["project.py"] = files["project.py"].replace("archetypes=[", "archetypes=[archs.Bad, ")
        elif k == "value":
            files["levels.py"] += "\nraise ValueError('no')\n"
        elif k == "resource":
            files["project.py"] = files["project.py"].replace("data=EngineData", "skin='nosuch', data=EngineData")
        elif k == "level":
            files["project.py"] = files["project.py"].replace("    levels=levels,", "    levels=lambda: [1 / 0],")
        elif k == "missing":
            files["project.py"] = files["project.py"].replace("project = Project(", "prject = Project(")
        else:
            files["project.py"] = files["project.py"].replace("    levels=levels,", "    levels=[1],")
        return k
