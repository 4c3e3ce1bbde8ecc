"""P18: a development server rebuilding after edits serves what a fresh process builds from the same sources."""
import hashlib
import json
import os
import random
import shutil
import socket
import subprocess
import sys
import time
import urllib.request
from pathlib import Path

import projgen
import script
from optcheck import LEVELS
from sonolus.build import engine as be
from sonolus.script.internal.context import RuntimeChecks
from sonolus.script.project import BuildConfig

HERE = Path(__file__).resolve().parent.parent / "lib"
PLURAL = {"post": "posts", "playlist": "playlists", "level": "levels", "replay": "replays", "skin": "skins", "background": "backgrounds",
          "effect": "effects", "particle": "particles", "engine": "engines"}


class Stuck(Exception):
    pass


class Lost(Exception):
    """The environment, not the code: a port was taken, say."""


class Zygote:
    def __init__(self, tree):
        self.p = subprocess.Popen([sys.executable, str(HERE / "p18child.py"), str(tree), str(HERE)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, **job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


def site(base):
    """Everything that can be reached from the start page; None where it is missing."""
    root = Path(base) / "site" / "sonolus"
    out = {}

    def doc(p):
        f = root / p
        out[p] = json.loads(f.read_text(encoding="utf-8")) if f.is_file() else None
        return out[p] or {}

    def hashes(x):
        if isinstance(x, dict):
            if isinstance(x.get("hash"), str) and "url" in x:
                h = x["hash"]
                f = root / "repository" / h
                out["repository/" + h] = f.is_file() and hashlib.sha1(f.read_bytes()).hexdigest() == h
            for v in x.values():
                hashes(v)
        elif isinstance(x, list):
            for v in x:
                hashes(v)
    for b in doc("info").get("buttons", []):
        c = PLURAL.get(b["type"], b["type"])
        doc(c + "/info")
        for it in doc(c + "/list").get("items", []):
            doc(f"{c}/{it['name']}")
    hashes(dict(out))
    return out


def difference(a, b):
    """Where two sites first differ: (place, what one holds, what the other holds)."""
    for k in sorted(set(a) | set(b)):
        if a.get(k, "nothing") != b.get(k, "nothing"):
            x, y = a.get(k, "nothing"), b.get(k, "nothing")
            path = k
            while isinstance(x, (dict, list)) and type(x) is type(y):
                keys = sorted(set(x) | set(y)) if isinstance(x, dict) else range(max(len(x), len(y)))
                for i in keys:
                    p = x.get(i, "nothing") if isinstance(x, dict) else (x[i] if i < len(x) else "nothing")
                    q = y.get(i, "nothing") if isinstance(y, dict) else (y[i] if i < len(y) else "nothing")
                    if p != q:
                        path += f"/{i}"
                        x, y = p, q
                        break
            return path, x, y
    return None


class Dev:
    def __init__(self, zy, d, level):
        self.zy, self.d = zy, d
        self.out = d / "dev.out"
        self.fifo = d / "dev.in"
        os.mkfifo(self.fifo)
        self.w = os.open(self.fifo, os.O_RDWR)
        with socket.socket() as s:
            s.bind(("", 0))
            self.port = s.getsockname()[1]
        self.seen = 0
        self.pid = zy.ask(op="dev", cwd=str(d), out=str(self.out), build=str(d / "dev"), port=self.port, level=level, **{"in": str(self.fifo)})
        self.start = self.wait()

    def text(self):
        return self.out.read_bytes().decode("utf-8", "replace") if self.out.exists() else ""

    def wait(self, limit=150):
        """What was printed until the next prompt."""
        end = time.monotonic() + limit
        while time.monotonic() < end:
            t = self.text()
            i = t.find("\n> ", self.seen)
            if i >= 0:
                part = t[self.seen:i]
                self.seen = i + 3
                return part
            rc = self.zy.ask(op="reap", pid=self.pid)
            if rc is not None:
                self.pid = None
                t = self.text()
                if "Address already in use" in t:
                    raise Lost
                raise Stuck(f"the server ended with status {rc}: {t[self.seen:][-600:]}")
            time.sleep(0.01)
        raise Stuck(f"no prompt after {limit} s: {self.text()[self.seen:][-300:]}")

    def send(self, line):
        self.seen = len(self.text())
        os.write(self.w, (line + "\n").encode())
        return self.wait()

    def get(self, path):
        with urllib.request.urlopen(f"http://127.0.0.1:{self.port}/sonolus/{path}", timeout=60) as f:
            return f.read()

    def close(self):
        code = None
        if self.pid:
            os.write(self.w, b"q\n")
            end = time.monotonic() + 20
            while code is None and time.monotonic() < end:
                code = self.zy.ask(op="reap", pid=self.pid)
                time.sleep(0.02)
            if code is None:
                self.zy.ask(op="reap", pid=self.pid, kill=True)
        os.close(self.w)
        return code


class Files:
    """The project on disk: only what changed is touched, as an editor would."""

    def __init__(self, d):
        self.d, self.now, self.tick = d, {}, 0

    def put(self, files, res):
        want = {**{"proj/" + k: v for k, v in files.items()}, **res}
        for k in [k for k in self.now if k not in want]:
            (self.d / k).unlink()
            p = (self.d / k).parent
            while p != self.d and not any(p.iterdir()):
                p.rmdir()
                p = p.parent
        for k, v in want.items():
            if self.now.get(k) != v:
                f = self.d / k
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_text(v, encoding="utf-8")
                if k.endswith(".py"):  # compiled files are told apart by whole seconds
                    self.tick += 2
                    os.utime(f, (1_600_000_000 + self.tick,) * 2)
        self.now = want


def history(ctx, zy, seed):
    r = random.Random(f"p18{seed}")
    d = Path(ctx.scratch) / f"h{seed}"
    d.mkdir(parents=True)
    rp = {"history": seed}
    level = r.choice(["-O0", "-O0", "-O1", "-O2"])
    spec = projgen.Spec(seed)
    fs = Files(d)
    fs.put(*spec.render())
    steps, states, dev = [], [spec.snapshot()], None

    def bad(k, msg):
        ctx.violation(k, f"history {seed} ({level}), after {' -> '.join(steps)}: {msg}", rp)

    def fresh():
        shutil.rmtree(d / "fresh", ignore_errors=True)
        rc = zy.ask(op="fresh", cwd=str(d), out=str(d / "fresh.out"), build=str(d / "fresh"), codes=str(d / "codes"), level=level)
        ctx.count("fresh-builds")
        return rc

    def compare(got, want):
        x = difference(got, want)
        if x:
            bad("site", f"{x[0]} of the site is {str(x[1])[:300]}, a fresh build gives {str(x[2])[:300]}")
        elif not all(v is not None and v is not False for v in got.values()):
            bad("missing", f"{[k for k, v in got.items() if v is None or v is False]} are missing or damaged")
        ctx.count("comparisons", len(want))
        return not x
    try:
        if fresh():
            ctx.count("invalid")
            ctx.sample({"invalid": seed, "out": (d / "fresh.out").read_text()[-400:]})
            return
        dev = Dev(zy, d, level)
        steps.append("start")
        last = site(d / "dev")
        compare(last, site(d / "fresh"))
        for _ in range(r.randint(3, 6)):
            if ctx.over():
                break
            time.sleep(0.03)  # file times are coarse
            spoiled = None
            if r.random() < 0.25:
                files, res = spec.render()
                spoiled = spec.spoil(files, res)
                fs.put(files, res)
                steps.append("spoil:" + spoiled)
            else:
                if len(states) > 1 and r.random() < 0.15:
                    spec.s = r.choice(states[:-1])
                    spec.s = spec.snapshot()
                    names = ["undo"]
                else:
                    names = [spec.edit() for _ in range(r.choice([1, 1, 1, 2, 4]))]
                fs.put(*spec.render())
                states.append(spec.snapshot())
                steps.append("+".join(names))
                for n in names:
                    ctx.count("edit:" + n)
            out = dev.send(r.choice(["r", "rebuild"]))
            ok = "Rebuild completed" in out
            rc = fresh()
            ctx.count("rebuilds")
            got = site(d / "dev")
            if ok != (rc == 0):
                bad("outcome", f"the rebuild {'succeeds' if ok else 'fails'}, a fresh build {'fails' if rc else 'succeeds'}: {(out if not ok else (d / 'fresh.out').read_text())[-500:]}")
                return
            if not ok:
                ctx.count("failed-builds")
                if not spoiled:
                    ctx.count("invalid-edit")
                if "Traceback" not in out and "Error" not in out:
                    bad("silent", f"the failed rebuild says only {out[-300:]!r}")
                if got != last:
                    bad("spoiled", f"the site changed although the rebuild failed: {difference(got, last)}")
                    return
                continue
            last = got
            if not compare(got, site(d / "fresh")):
                return
            ctx.distinct(hashlib.sha1(json.dumps(got, sort_keys=True).encode()).hexdigest())
            ctx.count("evaluations")
            codes = json.loads((d / "codes").read_text())
            if codes and r.random() < 0.5:
                k = r.choice(sorted(codes))
                said = dev.send(f"d {k}")
                ctx.count("decodes")
                if codes[k].strip() not in said:
                    bad("decode", f"code {k} decodes to {said!r}, a fresh build gave it to {codes[k]!r}")
            if r.random() < 0.25:
                for p in r.sample(sorted(got), min(6, len(got))):
                    if (data := dev.get(p)) != (d / "fresh" / "site" / "sonolus" / p).read_bytes():
                        bad("served", f"{p} is served as {data[:200]}")
                    ctx.count("requests")
        code = dev.close()
        dev = None
        if code != 0:
            bad("exit", f"the server left with status {code}")
        ctx.count("histories")
        ctx.sample({"seed": seed, "level": level, "steps": steps})
    except Stuck as e:
        bad("stuck", str(e))
    except Lost:
        ctx.count("port-taken")
    finally:
        if dev:
            dev.close()
        shutil.rmtree(d, ignore_errors=True)


PATCHED = '''
from sonolus.script.archetype import PlayArchetype, imported
from sonolus.script.debug import debug_log
from sonolus.script.engine import EngineData, PlayMode
from sonolus.script.record import Record

C = 3
TABLE = {1: 10, 2: 20}


def cell(v):
    def inner(a, b=2):
        return a * v + b

    def set_(x):
        nonlocal v
        v = x
    return inner, set_


closed, set_cell = cell(4)


def helper(a, b=1, *, k=2):
    return a * b + k + C


def other(a, b=5, *, k=6):
    return a - b * k


def plain(a, b=4, c=5):
    return a + b * 10 + c * 100


def swapped(self):
    return self.x * 7


def swapped2(self):
    return self.x - 70


def swapped_set(self, v):
    self.x = v * 2


class R(Record):
    x: int
    K = 11

    @property
    def prop(self):
        return self.x + 100

    @prop.setter
    def prop(self, v):
        self.x = v

    def total(self, n=2):
        return self.x * n + self.K

    def __add__(self, o):
        return R(self.x + o)

    @staticmethod
    def st(a):
        return a * 3


class Base(PlayArchetype):
    i: float = imported()

    def should_spawn(self):
        return self.i > C

    def value(self, d=1):
        return self.i + d


class A(Base):
    def update_sequential(self):
        r = R(self.i)
        debug_log(helper(self.i))
        debug_log(plain(self.i))
        debug_log(plain(self.i, 3))
        debug_log(closed(self.i))
        debug_log(r.prop)
        r.prop = 5
        debug_log(r.x)
        debug_log(r.total())
        debug_log((r + 4).x)
        debug_log(R.st(self.i))
        debug_log(R.K)
        debug_log(TABLE[1])
        debug_log(self.value())
        debug_log(C)


class B(Base):
    def touch(self):
        debug_log(self.value(2))


def another(self):
    debug_log(self.i * 1000 + C)


def spawn(self):
    return self.i < 9


data = EngineData(ui=None, play=PlayMode(archetypes=[A, B]))
'''


def rebinding(r):
    n = r.randint(1, 90)
    return r.choice([f"m.C = {n}", f"m.helper.__defaults__ = ({n},)", f"m.helper.__kwdefaults__ = {{'k': {n}}}", "m.helper = m.other", f"m.plain.__defaults__ = ({n}, {n + 1})", f"m.plain.__defaults__ = ({n},); m.plain.__defaults__ = (1, {n})",
                     f"m.set_cell({n})", f"m.closed.__defaults__ = ({n},)", "m.R.prop = property(m.swapped, m.swapped_set)", "m.R.prop = property(m.swapped2, m.swapped_set)", "m.R.total = m.swapped", "m.R.total = m.swapped2", f"m.R.K = {n}",
                     f"m.R.total.__defaults__ = ({n},) if m.R.total.__defaults__ else None", "m.R.st = staticmethod(m.other)", "m.R.__add__ = m.other", f"m.TABLE = {{1: {n}}}", f"m.TABLE[1] = {n}", f"m.Base.value.__defaults__ = ({n},)",
                     "m.Base.value = m.swapped_x", "m.A.value = lambda self, d=3: self.i * d", "m.A.update_sequential = m.another", "m.Base.should_spawn = m.spawn", "m.A.should_spawn = m.spawn"])


def patched(ctx, seed):
    """Rebinding what a compiled function refers to, between builds in one process."""
    r = random.Random(f"patch{seed}")
    src = PATCHED + "\n\ndef swapped_x(self, d=2):\n    return self.i - d\n\n\ndef extra(a, b=4, c=5):\n    return a * b * c\n"
    level = r.choice(sorted(LEVELS))
    check = r.choice(list(RuntimeChecks))
    done, mods = [], []

    def load(path=None):
        m = script.module(ctx, src)
        mods.append(m)
        return m

    def build(m):
        try:
            if r.random() < 0.2:
                be.validate_engine(m.data, BuildConfig(passes=LEVELS[level], runtime_checks=check))
            p = be.package_engine(m.data, BuildConfig(passes=LEVELS[level], runtime_checks=check))
            return [p.play_data, p.watch_data, p.configuration, p.rom]
        except Exception as e:
            while e.__cause__ is not None:
                e = e.__cause__
            return [type(e).__name__]
    try:
        m = load()
        build(m)
        for _ in range(r.randint(2, 6)):
            for _ in range(r.choice([1, 1, 2])):
                done.append(rebinding(r))
                exec(done[-1], {"m": m})
            f = load()
            for x in done:
                exec(x, {"m": f})
            ctx.count("rebindings")
            a, b = build(m), build(f)
            ctx.count("failed-rebindings", len(a) == 1)
            if a != b:
                what = [x for x, p, q in zip(("play data", "watch data", "configuration", "rom"), a, b) if p != q] if len(a) == len(b) else [a[0][:40], b[0][:40]]
                ctx.violation("rebound", f"after {done} (level {level}, seed {seed}) a build in the same process differs from one of fresh objects in {what}", {"patched": seed})
                return
            ctx.distinct(hashlib.sha1(a[0] if len(a) > 1 else a[0].encode()).hexdigest())
        ctx.count("patched-histories")
    finally:
        for x in mods:
            script.forget(x)


def work(ctx):
    zy = Zygote(ctx.tree)
    for i, seed in enumerate(ctx.cases()):
        if i % 4 == 2:
            ctx.mark({"patched": seed})
            patched(ctx, seed)
        else:
            ctx.mark({"history": seed})
            history(ctx, zy, seed)


def replay(ctx, r):
    r = r.get("crash") or r.get("hang") or r
    if "patched" in r:
        patched(ctx, r["patched"])
    else:
        history(ctx, Zygote(ctx.tree), r["history"])
