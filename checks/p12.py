"""P12: random histories of collection operations against a model; files on disk, faults while writing."""
import contextlib
import copy
import gzip
import hashlib
import io
import json
import os
import random
import resource
import shutil
import warnings
import zipfile
from pathlib import Path

from sonolus.build.collection import Collection

CATS = ["posts", "playlists", "levels", "replays", "skins", "backgrounds", "effects", "particles", "engines"]
SING = {"posts": "post", "playlists": "playlist", "levels": "level", "replays": "replay", "skins": "skin", "backgrounds": "background", "effects": "effect",
        "particles": "particle", "engines": "engine"}
ORDER = ["levels", "engines", "skins", "effects", "particles", "backgrounds", "posts", "playlists", "replays"]
LOCAL = ["title", "subtitle", "author", "description", "artists"]
USES = [("useSkin", "skins"), ("useBackground", "backgrounds"), ("useEffect", "effects"), ("useParticle", "particles")]
NAMES = ["a", "b", "c", "a-b", "x1", "été", "long-name-with-dashes", "v1.2", "v1.3", "A", "_"]


def srl(data):
    h = hashlib.sha1(data).hexdigest()
    return {"hash": h, "url": "/sonolus/repository/" + h}


def loc(t):
    if isinstance(t, str):
        return t
    if isinstance(t, dict):
        if "en" in t:
            return t["en"]
        if t:
            return t[sorted(t)[0]]
    return ""


def localize(item):
    o = {}
    for k, v in item.items():
        if k == "meta":
            continue
        if k in LOCAL:
            v = loc(v)
        elif k == "tags":
            v = [dict(t, title=loc(t["title"])) for t in v]
        o[k] = v
    return o


class Model:
    def __init__(self):
        self.cats = {}
        self.repo = {}

    def asset(self, data):
        self.repo[hashlib.sha1(data).hexdigest()] = data
        return srl(data)

    def item(self, cat, name, item):
        self.cats.setdefault(cat, {})[name] = {"item": localize(item), "actions": [], "hasCommunity": False, "leaderboards": [], "sections": []}

    def link(self):
        for d in self.cats.get("levels", {}).values():
            lv = d["item"]
            if isinstance(lv["engine"], str):
                lv["engine"] = self.cats["engines"][lv["engine"]]["item"]
            for k, c in USES:
                u = lv[k]
                if "item" not in u:
                    continue
                n = u["item"] if isinstance(u["item"], str) else u["item"].get("name") if isinstance(u["item"], dict) else None
                if n is not None and n in self.cats.get(c, {}):
                    u["item"] = self.cats[c][n]["item"]


class Gen:
    def __init__(self, r, dir):
        self.r = r
        self.dir = dir
        self.k = 0
        self.pool = [b"", b"x", b"\x00" * 10, os.urandom(0) + b"hello", b"hello2", bytes(r.randrange(256) for _ in range(300)), b'{"a": 1}', bytes(5000)]

    def path(self):
        self.k += 1
        return os.path.join(self.dir, f"f{self.k}")

    def data(self):
        r = self.r
        return r.choice(self.pool) if r.random() < 0.8 else bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40, 2000])))

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice(["", "T", "title é", "日本", 'q"uote\\', "en"])
        ks = r.sample(["en", "ja", "ko", "zhs", "zht", "fr", "es", "EN", ""], r.randint(0, 4))
        if x < 0.6 and ks:
            ks = ["en", *[k for k in ks if k != "en"]]
            r.shuffle(ks)
        return {k: f"text-{k}-{r.randint(0, 5)}" for k in ks}

    def tags(self):
        r = self.r
        return [{"title": self.text(), **({"icon": r.choice(["star", "x"])} if r.random() < 0.5 else {})} for _ in range(r.randint(0, 3))]

    def fields(self, cat, name, model, srls):
        """A valid item document."""
        r = self.r
        d = {"name": name, "version": r.randint(1, 13), "title": self.text(), "author": self.text(), "tags": self.tags()}
        if r.random() < 0.5:
            d["description"] = self.text()
        if r.random() < 0.3:
            d["meta"] = {"x": [1, {"y": 2}]}
        if r.random() < 0.3:
            d["subtitle"] = self.text()
        if r.random() < 0.4:
            d["extra"] = r.choice([None, 1, 2.5, True, [1, {"title": {"ja": "z"}}], {"en": "kept", "meta": 1}, "s"])
        if srls and r.random() < 0.8:
            for k in r.sample(["thumbnail", "cover", "data", "bgm", "texture"], r.randint(1, 3)):
                d[k] = dict(r.choice(srls))
        if cat == "levels":
            d["artists"] = self.text()
            d["rating"] = r.choice([0, 1, 20, 25.5])
            eng = list(model.cats.get("engines", {}))
            if eng and r.random() < 0.7:
                d["engine"] = r.choice(eng)
            else:
                d["engine"] = {"name": r.choice(NAMES), "version": 13, "title": "E"}
            for k, c in USES:
                x = r.random()
                if x < 0.4:
                    d[k] = {"useDefault": True}
                elif x < 0.7:
                    d[k] = {"useDefault": False, "item": r.choice(NAMES)}
                elif x < 0.95:
                    d[k] = {"useDefault": False, "item": {"name": r.choice(NAMES), "version": 4, "title": "skin"}}
                else:
                    d[k] = {"useDefault": False, "item": {"version": 4}}
        items = list(d.items())
        r.shuffle(items)
        return dict(items)


class History:
    def __init__(self, ctx, seed):
        self.ctx = ctx
        self.seed = seed
        self.r = random.Random(seed)
        self.dir = os.path.join(ctx.scratch, f"c{seed}")
        os.makedirs(self.dir)
        self.g = Gen(self.r, self.dir)
        self.cs = [(Collection(), Model()) for _ in range(self.r.choice([1, 2, 2, 3]))]
        self.trail = []

    def bad(self, key, msg):
        self.ctx.violation(key, f"history seed {self.seed} after {' ; '.join(self.trail[-12:])}: {msg}", {"seed": self.seed})
        raise Done

    def same(self, what, a, b):
        if a != b:
            self.bad("state", f"{what}: {diff(a, b)}")
        for cat in b:
            # the order of the items of a category decides which is the default one and how lists read
            if list(a[cat]) != list(b[cat]):
                self.bad("state", f"{what}: the items of {cat} are in order {list(a[cat])}, not {list(b[cat])}")

    def check(self):
        for i, (c, m) in enumerate(self.cs):
            self.same(f"collection {i} categories", plain(c.categories), m.cats)
            if dict(c.repository) != m.repo:
                miss = [h for h in m.repo if c.repository.get(h) != m.repo[h]]
                extra = [h for h in c.repository if h not in m.repo]
                self.bad("repository", f"collection {i}: missing or wrong {miss[:3]}, unexpected {extra[:3]}")
            self.ctx.count("states")

    # -- operations
    def op_asset(self, c, m):
        d = self.g.data()
        if self.r.random() < 0.4:
            p = self.g.path()
            with open(p, "wb") as f:
                f.write(d)
            got = c.add_asset(Path(p))
        else:
            got = c.add_asset(d)
        want = m.asset(d)
        if dict(got) != want:
            self.bad("srl", f"add_asset of {len(d)} bytes returned {got}, not {want}")
        self.srls = [*getattr(self, "srls", []), want][-6:]

    def op_item(self, c, m):
        cat = self.r.choice(CATS)
        name = self.r.choice(NAMES)
        srls = [srl(x) for x in m.repo.values()][-6:]
        it = self.g.fields(cat, name, m, srls)
        keep = copy.deepcopy(it)
        c.add_item(cat, name, it)
        m.item(cat, name, copy.deepcopy(keep))
        if it != keep:
            self.bad("argument", f"add_item changed the item it was given: {diff(it, keep)}")

    def op_source(self, c, m):
        r = self.r
        root = self.g.path()
        os.makedirs(root)
        if r.random() < 0.5:
            Path(root, "README").write_text("x")
        m2 = []
        dirs = r.sample(CATS, r.randint(0, 4))
        for cat in dirs + (["other"] if r.random() < 0.4 else []):
            for name in r.sample(NAMES, r.randint(0, 3)):
                d = Path(root, cat, name)
                d.mkdir(parents=True)
                if r.random() < 0.12:
                    (d / "cover.png").write_bytes(b"only a resource")
                    continue
                doc = self.g.fields(cat, name, m, [])
                doc.pop("name")
                if r.random() < 0.1:
                    (d / "item.json").write_text("{ not json")
                    continue
                (d / "item.json").write_text(json.dumps(doc, ensure_ascii=r.random() < 0.5), encoding="utf-8")
                res = []
                for stem in r.sample(["cover", "bgm", "data", "texture", "audio.v2", "configuration"], r.randint(0, 4)):
                    ext = r.choice([".png", ".mp3", ".json", ".bin", "", ".JSON", ".Bin", ".json.gz"])
                    b = self.g.data()
                    (d / (stem + ext)).write_bytes(b)
                    res.append((stem + ext, b))
                if r.random() < 0.2:
                    (d / "nested").mkdir()
                m2.append((cat, name, doc, res))
            if r.random() < 0.3:
                Path(root, cat).mkdir(exist_ok=True)
                Path(root, cat, "stray.txt").write_text("x")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                c.load_from_source(root if r.random() < 0.5 else Path(root))
        for cat, name, doc, res in sorted(m2, key=lambda t: (t[0], t[1])):
            if cat not in CATS:
                continue
            it = localize(doc)
            it["name"] = name
            for f, b in sorted(res):
                if os.path.splitext(f)[1].lower() in (".json", ".bin"):
                    b = gzip.compress(b, mtime=0)
                it[os.path.splitext(f)[0]] = m.asset(b)
            m.item(cat, name, it)
        shutil.rmtree(root)

    def zip(self, entries):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", self.r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            for n, d in entries:
                z.writestr(n, d)
        return b.getvalue()

    def scp_arg(self, b):
        if self.r.random() < 0.5:
            return b
        p = self.g.path() + ".scp"
        with open(p, "wb") as f:
            f.write(b)
        return Path(p)

    def op_scp(self, c, m):
        r = self.r
        pre = r.choice(["", "sonolus/"])
        entries, eff = [], []
        for _ in range(r.randint(0, 4)):
            d = self.g.data()
            h = hashlib.sha1(d).hexdigest()
            if all(x[0] != f"{pre}repository/{h}" for x in entries):
                entries.append((f"{pre}repository/{h}", d))
                eff.append(("repo", h, d))
        for cat in r.sample(CATS, r.randint(0, 4)) + (["servers"] if r.random() < 0.3 else []):
            for name in r.sample(NAMES, r.randint(1, 3)):
                det = {"item": self.g.fields(cat, name, m, []), "actions": [{"type": "x"}], "hasCommunity": r.random() < 0.5, "leaderboards": [], "sections": [], "description": r.choice([None, "d"])}
                if r.random() < 0.1:
                    entries.append((f"{pre}{cat}/{name}", b"nope"))
                    eff.append(("cat", cat))
                else:
                    entries.append((f"{pre}{cat}/{name}", json.dumps(det, ensure_ascii=r.random() < 0.5).encode()))
                    eff.append(("item", cat, name, det))
            for n in ("info", "list"):
                if r.random() < 0.6:
                    entries.append((f"{pre}{cat}/{n}", json.dumps({"pageCount": 1, "items": []})))
                    eff.append(("skip",))
            if r.random() < 0.3:
                entries.append((f"{pre}{cat}/", b""))
                eff.append(("skip",))
        if r.random() < 0.5:
            entries.append((f"{pre}info", b"{}"))
            eff.append(("skip",))
        order = list(range(len(entries)))
        r.shuffle(order)
        entries, eff = [entries[i] for i in order], [eff[i] for i in order]
        c.load_from_scp(self.scp_arg(self.zip(entries)))
        groups = {}
        for e in eff:
            if e[0] == "repo":
                groups.setdefault("repository", []).append(e)
            elif e[0] in ("item", "cat"):
                groups.setdefault(e[1], []).append(e)
        for cat, es in groups.items():
            for e in es:
                if e[0] == "repo":
                    m.repo[e[1]] = e[2]
                elif cat in CATS:
                    m.cats.setdefault(cat, {})
                    if e[0] == "item":
                        m.cats[cat][e[2]] = copy.deepcopy(e[3])

    def op_update(self, c, m):
        o, om = self.r.choice(self.cs)
        if o is c:
            return
        c.update(o)
        m.repo.update(om.repo)
        for cat, items in om.cats.items():
            m.cats.setdefault(cat, {}).update(items)

    def op_get(self, c, m):
        r = self.r
        cat, name = r.choice(CATS), r.choice(NAMES)
        try:
            got = c.get_item(cat, name)
        except KeyError:
            got = None
        want = m.cats.get(cat, {}).get(name, {}).get("item")
        if (got is None) != (want is None) or (got is not None and plain(got) != want):
            self.bad("get", f"get_item({cat}, {name}) gave {got}, not {want}")
        try:
            got = c.get_default_item(cat)
        except KeyError:
            got = None
        want = next((d["item"] for d in m.cats.get(cat, {}).values()), None)
        if (got is None) != (want is None) or (got is not None and plain(got) != want):
            self.bad("get", f"get_default_item({cat}) gave {got}, not {want}")

    def linkable(self, m):
        return all(not isinstance(d["item"]["engine"], str) or d["item"]["engine"] in m.cats.get("engines", {}) for d in m.cats.get("levels", {}).values())

    def op_link(self, c, m):
        if self.linkable(m):
            c.link()
            m.link()
            self.ctx.count("links")

    def op_rename(self, c, m):
        c.name = m.name = self.r.choice(["N", "näme", ""])

    def tree(self, base):
        out = {}
        for p, _, fs in os.walk(base):
            for f in fs:
                q = os.path.join(p, f)
                with open(q, "rb") as h:
                    out[os.path.relpath(q, base)] = h.read()
        return out

    def op_write(self, c, m):
        r = self.r
        if not self.linkable(m):
            return
        reuse = getattr(self, "outdir", None)
        out = reuse if reuse and r.random() < 0.4 else self.g.path()
        self.outdir = out
        stale = self.tree(out) if os.path.exists(out) else {}
        if r.random() < 0.3:
            # the disk is full for files longer than this; the write is then repeated
            lim = r.choice([1, 3, 50, 300, 1000])
            os.makedirs(out, exist_ok=True)
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try:
                c.write(out if r.random() < 0.5 else Path(out))
            except OSError:
                self.ctx.count("interrupted-writes")
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        c.write(out if r.random() < 0.5 else Path(out))
        m.link()
        want = {}
        for h, d in m.repo.items():
            want[f"sonolus/repository/{h}"] = d
        for cat, items in m.cats.items():
            if not items:
                continue
            its = [d["item"] for d in items.values()]
            want[f"sonolus/{cat}/info"] = {"sections": [{"itemType": SING[cat], "title": "Items", "items": its}]}
            want[f"sonolus/{cat}/list"] = {"pageCount": 1, "items": its}
            for n, d in items.items():
                want[f"sonolus/{cat}/{n}"] = d
        want["sonolus/info"] = {"title": getattr(m, "name", "Unnamed"), "buttons": [{"type": SING[x]} for x in ORDER if m.cats.get(x)], "configuration": {"options": []}}
        got = self.tree(out)
        for f, w in want.items():
            if f not in got:
                self.bad("file", f"{f} was not written")
            if isinstance(w, bytes):
                if got[f] != w:
                    self.bad("file", f"{f} holds {len(got[f])} bytes that are not the {len(w)} of its resource")
            else:
                try:
                    doc = json.loads(got[f].decode("utf-8"))
                except ValueError as e:
                    self.bad("file", f"{f} is not JSON: {e}")
                if doc != json.loads(json.dumps(w)):
                    self.bad("file", f"{f}: {diff(doc, json.loads(json.dumps(w)))}")
        extra = [f for f in got if f not in want and f not in stale]
        if extra:
            self.bad("file", f"unexpected files {extra[:3]}")
        self.ctx.count("writes")
        self.ctx.count("files", len(want))
        # every resource a written document names is there under the hash of its bytes
        for f in want:
            if isinstance(want[f], bytes):
                if hashlib.sha1(got[f]).hexdigest() != f.rsplit("/", 1)[1]:
                    self.bad("content", f"{f} does not hold the bytes it names")
        refs = set()
        collect(m.cats, refs)
        for h, url in refs:
            if url != "/sonolus/repository/" + h:
                self.bad("url", f"{url} does not name {h}")
        if stale:
            return
        # loading what was written gives the same collection
        es = [(f if r.random() < 2 else f, d) for f, d in got.items()]
        if r.random() < 0.5:
            es = [(f[len("sonolus/"):], d) for f, d in es]
        r.shuffle(es)
        c2 = Collection()
        c2.load_from_scp(self.scp_arg(self.zip(es)))
        a = {k: v for k, v in plain(c2.categories).items() if v}
        b = {k: json.loads(json.dumps(v)) for k, v in m.cats.items() if v}
        if a != b:
            self.bad("reload", f"writing and loading changes the items: {diff(a, b)}")
        if dict(c2.repository) != m.repo:
            self.bad("reload", "writing and loading changes the repository")
        self.ctx.count("reloads")

    def run(self):
        ops = {"asset": 3, "item": 4, "source": 2, "scp": 2, "update": 2, "get": 2, "link": 1, "write": 1.5, "rename": 0.3}
        n = self.r.randint(3, 25)
        try:
            for _ in range(n):
                op = self.r.choices(list(ops), ops.values())[0]
                i = self.r.randrange(len(self.cs))
                self.trail.append(f"{op}@{i}")
                getattr(self, "op_" + op)(*self.cs[i])
                self.ctx.count("operations")
                self.ctx.count("evaluations")
                self.check()
            self.ctx.distinct(hash(tuple(self.trail)))
            self.ctx.count("histories")
            if len(self.trail) > 8:
                self.ctx.sample({"seed": self.seed, "operations": self.trail, "items": sum(len(v) for _, m in self.cs for v in m.cats.values())})
        except Done:
            pass
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


class Done(Exception):
    pass


def plain(x):
    return x


def collect(x, out):
    if isinstance(x, dict):
        if set(x) == {"hash", "url"}:
            out.add((x["hash"], x["url"]))
        for v in x.values():
            collect(v, out)
    elif isinstance(x, list):
        for v in x:
            collect(v, out)


def diff(a, b, path="$"):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {str(a)[:200]} instead of {str(b)[:200]}"
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f"{path}.{k} is missing"
        for k in a:
            if k not in b:
                return f"{path}.{k} is unexpected"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}.{k}")
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
    return f"{path}: {str(a)[:200]} instead of {str(b)[:200]}"


def work(ctx):
    for seed in ctx.cases():
        ctx.mark({"seed": seed})
        History(ctx, seed).run()


def replay(ctx, r):
    if "crash" in r:
        r = r["crash"]
    History(ctx, r["seed"]).run()
