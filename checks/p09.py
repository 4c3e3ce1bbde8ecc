"""P09: the same program gives the same bytes, whatever the process, the hash seed and what was compiled before."""
import json
import os
import random
import shutil
import subprocess
import zipfile
from pathlib import Path

import cfggen
import cfgser
import enggen
import harness
import p11
import pygen
from p03 import values

FAILING = '''
from sonolus.script.debug import debug_log
from sonolus.script.array import Array
from sonolus.script.containers import VarArray
from vin import inp


def a():
    debug_log(undefined_name)


def b():
    x = VarArray[float, 4].new()
    x.append("s")


def c():
    try:
        debug_log(1)
    except ValueError:
        pass


def d():
    while True:
        debug_log(inp(0))


def e():
    return e()


def f():
    x = Array(1, 2, 3)
    return x[7]


FAILING = [a, b, c, d, f]
'''
CLASSES = """class Note%d(PlayArchetype):
    x: float = imported()
    y: float = imported(name='#Y')


"""


def resources(r, base):
    kinds = ["skins", "backgrounds", "effects", "particles"]

    def items(root, names):
        for c in kinds:
            for n in r.sample(names, r.randint(1, 3)):
                d = root / c / n
                d.mkdir(parents=True, exist_ok=True)
                (d / "item.json").write_text(json.dumps({"version": 1, "title": {k: c + n + k for k in r.sample(["de", "ja", "ko", "fr"], 2)}}))
                for x in r.sample(["a.png", "b.json", "c.bin", "a.jpg"], 2):
                    (d / x).write_text(json.dumps([n, x]))
    items(base, ["s1", "s2", "A", "z", "0", "m.n"])
    for i in range(r.randint(0, 3)):
        tmp = base.parent / "tmp"
        items(tmp, ["q1", "q2", "B", "s1"])
        p = base / r.choice(["", "packs", "a/b"])
        p.mkdir(parents=True, exist_ok=True)
        with zipfile.ZipFile(p / f"p{r.randrange(1000)}.scp", "w") as z:
            for c in kinds:
                for d in sorted((tmp / c).iterdir()):
                    z.writestr(f"sonolus/{c}/{d.name}", json.dumps({"item": {"name": d.name, "title": f"{c}{i}"}, "actions": [], "hasCommunity": False, "leaderboards": [], "sections": []}))
        shutil.rmtree(tmp)


def case(ctx, seed):
    r = random.Random(f"p09{seed}")
    base = Path(ctx.scratch) / f"c{seed}"
    base.mkdir()
    items = []

    def save(src):
        p = base / f"mod{len(list(base.iterdir()))}.py"
        p.write_text(src)
        return str(p)

    def cfg_of():
        while True:
            p = cfggen.gen(r.randrange(1 << 30), r.choice([0.4, 0.8]))
            return cfgser.dump(p.entry, p.mode, p.callback)
    try:
        common = lambda: dict(level=r.choice(["minimal", "fast", "standard"]), checks=r.choice(["NONE", "NONE", "TERMINATE", "NOTIFY_AND_TERMINATE"]), build=[m for m in enggen.MODES if r.random() < 0.85])
        for _ in range(6):
            items.append(dict(kind="engine", path=save("import math\n" + p11.Romful(f"R{r.random()}").src), **common()))
        for _ in range(10):
            items.append(dict(kind="script", path=save(pygen.gen(r.randrange(1 << 30), r.choice([0.5, 1]))[0]), cons=values(r), **common()))
        for _ in range(40):
            items.append(dict(kind="cfg", d=cfg_of(), **common()))
        items.append(dict(kind="threads", ds=[cfg_of() for _ in range(12)], **common()))
        resources(r, base / "res")
        g = enggen.Gen(f"S{r.random()}", modes=["play"])
        names = [a["cname"] for a in g.archs["play"]] * 2
        items.append(dict(kind="site", path=save(g.src), resources=str(base / "res"), classes=names, **common()))
        if r.random() < 0.15:
            items.append(dict(kind="sample", resources=str(base / "res"), **dict(common(), level="minimal", build=r.sample(enggen.MODES, 1))))
        failing = save(FAILING)
        outs = []
        for k in range(3):
            order = list(range(len(items)))
            if k:
                r.shuffle(order)
                order += r.sample(order, len(order) // 4)
            sub = base / f"p{k}"
            sub.mkdir()
            spec = dict(tree=ctx.tree, lib=harness.LIB, scratch=str(sub), items=items, order=order, failing=failing, junk=r.randrange(1 << 30), shuffle=k > 0, noise=k > 0,
                        gc=r.choice([None, [50, 5, 5], [100000, 50, 50]]) if k else None, verbose=0.2 if k == 2 else 0)
            (sub / "spec").write_text(json.dumps(spec))
            env = {"PATH": os.environ["PATH"], "HOME": str(sub), "PYTHONHASHSEED": str(r.randrange(1 << 32)) if k < 2 else "random", "LANG": r.choice(["C", "C.UTF-8"]), "TZ": r.choice(["UTC", "Asia/Tokyo"]),
                   "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
            if k == 2 and r.random() < 0.5:
                env["SONOLUS_VISIT_STATS"] = "1"
            if k == 1 and r.random() < 0.3:
                env["PYTHONMALLOC"] = "malloc"
            try:
                p = subprocess.run([harness.PY, "-X", "faulthandler", os.path.join(harness.LIB, "p09child.py"), str(sub / "spec"), str(sub / "out")], env=env, cwd=r.choice([str(sub), "/"]),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
            except subprocess.TimeoutExpired:
                ctx.violation("hang", f"case {seed}: process {k} does not finish", {"case": seed})
                return
            if p.returncode:
                text = p.stdout.decode(errors="replace")
                last = [ln for ln in text.splitlines() if ln.strip().startswith("File ")]
                if p.returncode < 0 or (last and ctx.tree in last[-1]):
                    ctx.violation("failed", f"case {seed}: process {k} ended with {p.returncode}: {text[-3000:]}", {"case": seed})
                    return
                raise RuntimeError(f"process {k}: {p.returncode} {text[-2500:]}")
            outs.append(json.loads((sub / "out").read_text()))
            ctx.count("processes")
        first = {}
        for k, out in enumerate(outs):
            for n, (i, d) in enumerate(out):
                it = items[i]
                what = f"case {seed}: item {i} ({it['kind']}, {it['level']}, {it['checks']})"
                for x in d:
                    if x.startswith("modified"):
                        ctx.violation("modified", f"{what}: the program given was {x}", {"case": seed})
                    if x == "second":
                        ctx.violation("twice", f"{what}: compiling the program again gives another tree", {"case": seed})
                d = {x: y for x, y in d.items() if not x.startswith(("modified", "second"))}
                ctx.count("artefacts", len(d))
                ctx.count(it["kind"])
                if it["kind"] == "script" and "tree" in d:
                    ctx.count("compiled")
                if i not in first:
                    first[i] = (d, k, n)
                    ctx.distinct(str(d))
                    continue
                d0, k0, n0 = first[i]
                ctx.count("comparisons", len(d))
                if d != d0:
                    parts = [x for x in {**d, **d0} if d.get(x) != d0.get(x)]
                    ctx.violation(f"differs-{it['kind']}", f"{what}: {parts[:6]} differ between process {k0} (as number {n0}) and process {k} (as number {n})", {"case": seed})
        ctx.count("evaluations")
        ctx.sample({"seed": seed, "items": len(items), "order of process 1": [i for i, _ in outs[1]][:20]})
    finally:
        shutil.rmtree(base, ignore_errors=True)


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"case": seed})
        case(ctx, seed)


def replay(ctx, r):
    case(ctx, (r.get("crash") or r.get("hang") or r)["case"])
