"""P17: every declared part is in the package of its mode, and the ids the code uses are the ones the package assigns."""
import contextlib
import dataclasses
import gzip
import hashlib
import io
import json
import os
import random
import shutil
from pathlib import Path

import enggen
import engjudge
import script
from optcheck import LEVELS
from sonolus.build import engine as be
from sonolus.build import project as bp
from sonolus.script.engine import Engine
from sonolus.script.level import BpmChange, Level, LevelData
from sonolus.script.metadata import Tag
from sonolus.script.project import BuildConfig, Project

# what the layout and constant rules say is judged by P14 and P11
OTHERS = {"place-moves", "field-range", "slot-shared", "layout-inherited", "glob-shared", "rom", "node-value", "node-index"}
FIELDS = {"play": "play_data", "watch": "watch_data", "preview": "preview_data", "tutorial": "tutorial_data"}


def judge(ctx, g, packaged, build, replay):
    seen = set()

    def bad(k, msg):
        if k not in OTHERS and k not in seen:
            seen.add(k)
            ctx.violation(k, f"seed {g.seed}: {msg}", replay)
    docs = {m: engjudge.doc(getattr(packaged, f)) for m, f in FIELDS.items()}
    rom, _ = engjudge.rom(packaged.rom)
    engjudge.configuration(g, engjudge.doc(packaged.configuration), bad)
    ctx.count("options", len(g.options))
    for m in docs:
        on = m in g.modes and m in build
        engjudge.declared(g, m, docs[m], bad, on)
        ctx.count("modes-judged")
        for k in ("skin", "effect", "particle", "text", "icon", "bucket"):
            x = g.res.get(m, {}).get(k) if on else None
            ctx.count("declarations", len(x[2]) if x else 0)
        if m in g.archs and on:
            ctx.count("archetypes", len(g.archs[m]))
        if not on and m != "tutorial" and docs[m].get("archetypes"):
            bad("mode-not-empty", f"{m} is not built but holds {len(docs[m]['archetypes'])} archetypes")
    engjudge.observe(g, {m: d for m, d in docs.items() if m in build}, rom, bad, ctx.count)
    return docs


def engine(ctx, seed):
    r = random.Random(f"p17{seed}")
    g = enggen.Gen(seed, big=r.random() < 0.1)
    level = r.choice(sorted(LEVELS))
    build = set(enggen.MODES) if r.random() < 0.6 else {m for m in enggen.MODES if r.random() < 0.5}
    cfg = BuildConfig(passes=LEVELS[level], **{f"build_{m}": m in build for m in enggen.MODES})
    names = [f"o{i}" for i in range(r.randint(0, 3))] if g.options and r.random() < 0.3 else None
    src = g.src
    if names is not None:
        src = src.replace("class Options:\n", f"class Options:\n    replay_fallback_option_names = {names!r}\n", 1)
    m = script.module(ctx, src)
    rp = {"engine": seed}
    try:
        data = m.data
        if r.random() < 0.3:  # a validation beforehand changes nothing
            be.validate_engine(data, cfg)
            script.clear()
        p = be.package_engine(data, cfg)
        if names is not None:
            d = engjudge.doc(p.configuration)
            got = d.pop("replayFallbackOptionNames", [])
            if got != names:
                ctx.violation("fallback-names", f"seed {seed}: replayFallbackOptionNames is {got}, declared {names}", rp)
            p = dataclasses.replace(p, configuration=gzip.compress(json.dumps(d).encode()))
        docs = judge(ctx, g, p, build, rp)
        ctx.count("engines")
        ctx.count("evaluations")
        ctx.distinct(hashlib.sha1(json.dumps(docs).encode()).hexdigest())
        ctx.sample({"seed": seed, "modes": g.modes, "built": sorted(build), "level": level, "archetypes": {k: [a["name"] for a in v] for k, v in g.archs.items()}})
        if r.random() < 0.25:
            whole(ctx, g, m, r, cfg, build, rp)
    finally:
        script.forget(m)


def whole(ctx, g, m, r, cfg, build, rp):
    """The same engine through a project build to a site, read back from the files."""
    base = Path(ctx.scratch) / f"proj{g.seed}"
    res = base / "resources"
    res.mkdir(parents=True, exist_ok=True)
    thumb = bytes(r.randrange(256) for _ in range(40))
    (res / "thumb.png").write_bytes(thumb)
    kinds = {"skins": "skin", "backgrounds": "background", "effects": "effect", "particles": "particle"}
    parts = {c: sorted(r.sample(["pa", "pb", "pc", "z.1"], r.randint(1, 3))) for c in kinds}
    for c, names in parts.items():
        for n in names:
            (res / c / n).mkdir(parents=True)
            (res / c / n / "item.json").write_text(json.dumps({"version": 4, "title": c + n, "mark": [c, n]}))
    use = {k: r.choice([None, *parts[c]]) for c, k in kinds.items()}
    title = r.choice(["T", {"en": "E", "ja": "é"}, None])
    eng = Engine(name="eng" + str(g.seed), title=title, subtitle="S\"s", author={"ko": "x"}, thumbnail=r.choice([None, "thumb.png", res / "thumb.png", thumb]),
                 data=m.data, tags=[Tag("tag", "star")] if r.random() < 0.5 else None, description=r.choice([None, "d"]), **use)
    luse = []
    levels = []
    for i in range(r.randint(0, 3)):
        luse.append({k: r.choice([None, None, *parts[c]]) for c, k in kinds.items()})
        levels.append(Level(**{"use_" + k: v for k, v in luse[-1].items()}, name=f"lv{i}", title=r.choice([None, "L"]), rating=i, artists="A", bgm=r.choice([None, b"bgm%d" % i]), cover=r.choice([None, b"same"]),
                            preview=r.choice([None, b"pre"]), data=LevelData(i + 0.5, []), description=r.choice([None, "x"]), tags=[Tag({"en": "t"})] if i else None))
    # levels of other engines among the resources, some to be converted
    olds, conv = {}, {}
    for i in range(r.randint(0, 3)):
        src = r.choice(["old", "older", "third"])
        ents = [{"name": f"n{j}", "archetype": "#BPM_CHANGE", "data": [{"name": "#BEAT", "value": r.randrange(40)}, {"name": "#BPM", "value": r.choice([60, 120.5])}, *([{"name": "link", "ref": f"n{r.randrange(j + 1)}"}] if r.random() < 0.5 else [])]} for j in range(r.randint(0, 3))]
        olds[f"old{i}"] = (src, {"bgmOffset": i / 4, "entities": ents})
        (res / "levels" / f"old{i}").mkdir(parents=True)
        (res / "levels" / f"old{i}" / "item.json").write_text(json.dumps({"title": "t", "engine": r.choice([src, {"name": src}]), **{"use" + k.capitalize(): r.choice([{"useDefault": True}, {"useDefault": False, "item": parts[c][0]}]) for c, k in kinds.items()}}))
        (res / "engines" / src).mkdir(parents=True, exist_ok=True)
        (res / "engines" / src / "item.json").write_text('{"title": "src"}')
        (res / "levels" / f"old{i}" / r.choice(["data.json", "data.bin"])).write_text(json.dumps(olds[f"old{i}"][1]))
    calls = []

    def converter(key):
        def go(x):
            calls.append((key, x))
            if key == "older":
                return None
            return LevelData(x.bgm_offset + 100, [BpmChange(beat=e.data["#BEAT"] + e.data.get("link", 0) * 1000, bpm=e.data["#BPM"]) for e in x.entities])
        return go
    for k in r.sample(["old", "older", "third", None], r.randint(0, 4)):
        conv[k] = converter(k)
    if len([k for k in conv if k is not None]) and None in conv:  # which of two converters wins is not specified
        conv = {None: conv[None]}
    prj = Project(eng, (lambda: list(levels)) if r.random() < 0.5 else levels, res, conv)
    cfg = dataclasses.replace(cfg, override_resource_level_engines=r.random() < 0.5)
    schema = prj.schema() if r.random() < 0.5 else None
    out = base / "site"
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            coll = bp.build_project_to_collection(prj, cfg)
            coll.write(out)
        root = out / "sonolus"

        def bad(k, msg):
            ctx.violation("site-" + k, f"seed {g.seed}: {msg}", rp)

        def get(srl):
            f = root / "repository" / srl["hash"]
            return f.read_bytes() if f.is_file() else None

        doc = json.loads((root / "engines" / eng.name).read_text())
        item = doc["item"]

        def plain(x):
            return x if isinstance(x, str) else (x.get("en") or (x[sorted(x)[0]] if x else ""))
        for k, v in (("name", eng.name), ("version", 13), ("title", plain(title or eng.name)), ("subtitle", "S\"s"), ("author", "x")):
            if item.get(k) != v:
                bad("item", f"{k} of the engine is {item.get(k)!r}, declared {v!r}")
        if [(plain(t["title"]), t.get("icon")) for t in item["tags"]] != [(plain(t.title), t.icon) for t in eng.tags]:
            bad("item", f"tags of the engine are {item['tags']}")
        if get(item["thumbnail"]) != (bp.BLANK_PNG if eng.thumbnail is None else thumb):
            bad("thumbnail", f"thumbnail is {item['thumbnail']}")
        for c, k in kinds.items():
            want = [c, use[k]] if use[k] else None
            if not isinstance(item.get(k), dict) or item[k].get("mark", [0])[0] != c or (want and item[k]["mark"] != want):
                bad("resource", f"{k} of the engine is {item.get(k)}, declared {use[k]}")
        p = be.PackagedEngine(*[get(item[k]) for k in ("configuration", "playData", "watchData", "previewData", "tutorialData", "rom")])
        if any(getattr(p, f.name) is None for f in dataclasses.fields(p)):
            bad("missing", "a part of the engine is not in the repository")
            return
        d = engjudge.doc(p.configuration)
        d.pop("replayFallbackOptionNames", None)
        docs = judge(ctx, g, dataclasses.replace(p, configuration=gzip.compress(json.dumps(d).encode())), build, rp)
        if set(g.modes) <= build:
            want = {}
            for mode in ("play", "watch", "preview"):
                for a in docs[mode].get("archetypes") or []:
                    want.setdefault(a["name"], set()).update([x["name"] for x in a["imports"] if mode != "watch" or x["name"] not in ("#ACCURACY", "#JUDGMENT")] + a.get("exports", []))
            for sch in (schema, prj.schema()):
                if sch is None:
                    continue
                got = {a["name"]: a["fields"] for a in sch["archetypes"]}
                if len(got) != len(sch["archetypes"]) or {k: set(v) for k, v in got.items()} != want or any(len(v) != len(set(v)) for v in got.values()):
                    bad("schema", f"the schema is {sch}, the packages declare {want}")
            ctx.count("schemas")
        for n, (src, old) in olds.items():
            it = json.loads((root / "levels" / n).read_text())["item"]
            name = it["engine"] if isinstance(it["engine"], str) else it["engine"]["name"]
            if name != (eng.name if cfg.override_resource_level_engines else src):
                bad("old-engine", f"the engine of {n} is {name}, it was {src} (override {cfg.override_resource_level_engines})")
            key = src if src in conv else None
            data = json.loads(gzip.decompress(get(it["data"])))
            ids = {e["name"]: i for i, e in enumerate(old["entities"])}
            seen = [{**{v["name"]: v["value"] if "value" in v else ids[v["ref"]] for v in e["data"]}} for e in old["entities"]]
            if key not in conv or key == "older":
                if data != old:
                    bad("old-data", f"the data of {n} changed to {data} from {old}")
            else:
                want = [(e["#BEAT"] + e.get("link", 0) * 1000, e["#BPM"]) for e in seen]
                got = [tuple({v["name"]: v.get("value") for v in e["data"]}.get(k) for k in ("#BEAT", "#BPM")) for e in data["entities"]]
                if data["bgmOffset"] != old["bgmOffset"] + 100 or got != want:
                    bad("converted", f"the data of {n} is {data}, the converter gave {want}")
            if key in conv:
                n_ = [c for c in calls if c[0] == key and c[1].bgm_offset == old["bgmOffset"]]
                if len(n_) != 1 or [e.data for e in n_[0][1].entities] != seen or [e.archetype for e in n_[0][1].entities] != ["#BPM_CHANGE"] * len(seen):
                    bad("converter", f"the converter of {src} was given {n_} for {old}")
                ctx.count("conversions")
        if len(calls) != sum((src if src in conv else None) in conv for src, _ in olds.values()):
            bad("converter", f"converters were called {len(calls)} times")
        lst = {}
        for i, lv in enumerate(levels):
            it = json.loads((root / "levels" / lv.name).read_text())["item"]
            lst[lv.name] = it
            for k, v in (("name", lv.name), ("rating", lv.rating), ("title", plain(lv.title)), ("artists", "A")):
                if it.get(k) != v:
                    bad("level", f"{k} of {lv.name} is {it.get(k)!r}, declared {v!r}")
            for c, k in kinds.items():
                w, v = it["use" + k.capitalize()], luse[i][k]
                if w.get("useDefault") != (v is None) or (v is not None and w["item"]["mark"] != [c, v]):
                    bad("level-resource", f"the {k} of {lv.name} is {w}, declared {v!r}")
            if it["engine"]["name"] != eng.name or it["engine"]["playData"] != item["playData"]:
                bad("level-engine", f"{lv.name} refers to the engine {it['engine'].get('name')}")
            if get(it["cover"]) != (lv.cover or bp.BLANK_PNG) or get(it["bgm"]) != (lv.bgm or bp.BLANK_AUDIO) or ("preview" in it) != (lv.preview is not None) or (lv.preview and get(it["preview"]) != lv.preview):
                bad("level-asset", f"an asset of {lv.name} is not the one given")
            data = json.loads(gzip.decompress(get(it["data"])))
            if data != {"bgmOffset": i + 0.5, "entities": []}:
                bad("level-data", f"the data of {lv.name} is {data}")
        have = {f.name for f in (root / "levels").iterdir()} - {"info", "list"} if (root / "levels").exists() else set()
        if have != set(lst) | set(olds):
            bad("levels", f"levels {sorted(have)} are in the site, declared {sorted(lst) + sorted(olds)}")
        ctx.count("sites")
        for lv, u in zip(levels, luse):
            ex = lv.export(eng.name)
            it = ex.item
            if (it["engine"], it["rating"], it["title"], it["artists"]) != (eng.name, lv.rating, lv.title, lv.artists) or ex.cover != (lv.cover or bp.BLANK_PNG) or ex.bgm != (lv.bgm or bp.BLANK_AUDIO) or ex.preview != lv.preview:
                bad("level-export", f"{lv.name} is exported as {it}")
            for k, v in u.items():
                if it["use" + k.capitalize()] != ({"useDefault": True} if v is None else {"useDefault": False, "item": v}):
                    bad("level-export", f"the {k} of {lv.name} is exported as {it['use' + k.capitalize()]}, declared {v!r}")
            if ex.data != get(lst[lv.name]["data"]):
                bad("level-export", f"the exported data of {lv.name} is not what the site holds")
            ex.write_to_dir(base / lv.name)
            for k, v in {"cover": ex.cover, "bgm": ex.bgm, "data": ex.data, "preview": ex.preview}.items():
                f = base / lv.name / k
                if f.exists() != (v is not None) or (v is not None and f.read_bytes() != v) or json.loads((base / lv.name / "item.json").read_text(encoding="utf-8")) != it:
                    bad("level-export", f"the exported file {k} of {lv.name} differs")
        # the export format for packing tools names the same parts
        if isinstance(eng.thumbnail, str):  # relative to the project: an export on its own cannot find it
            return
        ex = eng.export()
        if set(build) == set(enggen.MODES) and cfg.passes == LEVELS["standard"]:
            for k, f in (("play_data", "playData"), ("watch_data", "watchData"), ("preview_data", "previewData"), ("tutorial_data", "tutorialData"), ("rom", "rom"), ("configuration", "configuration")):
                if getattr(ex, k) != get(item[f]):
                    bad("export", f"{k} of the exported engine is not what the site holds")
        dst = base / "export"
        ex.write_to_dir(dst)
        files = {"playData": ex.play_data, "watchData": ex.watch_data, "previewData": ex.preview_data, "tutorialData": ex.tutorial_data, "rom": ex.rom, "configuration": ex.configuration, "thumbnail": ex.thumbnail}
        for k, v in files.items():
            if (dst / k).read_bytes() != v:
                bad("export", f"the exported file {k} differs")
        ej = json.loads((dst / "item.json").read_text(encoding="utf-8"))
        if ej["title"] != eng.title or ej["author"] != {"ko": "x"} or ej["version"] != 13 or ej.get("description") != eng.description:
            bad("export", f"the exported item is {ej}")
        ctx.count("exports")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"engine": seed})
        engine(ctx, seed)


def replay(ctx, r):
    engine(ctx, (r.get("crash") or r.get("hang") or r)["engine"])
