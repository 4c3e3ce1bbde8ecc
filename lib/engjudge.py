"""What executing the decoded packages of a generated engine shows, against its description."""
import gzip
import json
import math
import struct

import ref
from enggen import BLOCK, CBS, INFO_SIZE, LIMIT
from sonolus.backend.node import FunctionNode
from sonolus.backend.ops import Op

OPS = {o.value: o for o in Op}
SELF = 5


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def doc(data):
    return json.loads(gzip.decompress(data).decode("utf-8"))


def rom(data):
    raw = gzip.decompress(data)
    return list(struct.unpack(f"<{len(raw) // 4}f", raw)), len(raw) % 4


class Nodes:
    """The node table, decoded from the front: every argument must refer backwards."""

    def __init__(self, table, bad):
        self.bad = bad
        out = []
        for i, n in enumerate(table):
            if set(n) == {"value"}:
                v = n["value"]
                if isinstance(v, bool) or not isinstance(v, (int, float)) or not math.isfinite(v):
                    bad("node-value", f"node {i} has the value {v!r}")
                    v = 0
                out.append(v)
                continue
            if set(n) != {"func", "args"} or not isinstance(n["args"], list):
                bad("node-shape", f"node {i} is {n!r}")
                out.append(0)
                continue
            if n["func"] not in OPS:
                bad("node-func", f"node {i} calls {n['func']!r}")
                out.append(0)
                continue
            args = []
            for a in n["args"]:
                if type(a) is not int or not 0 <= a < i:
                    bad("node-index", f"node {i} refers to {a!r}")
                    a = 0
                args.append(out[a] if i else 0)
            out.append(FunctionNode(OPS[n["func"]], tuple(args)))
        self.out = out

    def at(self, i):
        if type(i) is not int or not 0 <= i < len(self.out):
            self.bad("root-index", f"a callback's index is {i!r} of {len(self.out)} nodes")
            return 0
        return self.out[i]


class World(ref.World):
    """Memory whose numbers tell where they were read."""

    def __init__(self, mode, nreg, self_id, romv):
        super().__init__(0, rom=romv)
        self.mode, self.nreg, self.self_id = mode, nreg, self_id
        self.rev = {}
        self.next = 60
        self.gen = self.make

    def make(self, block, index):
        b = BLOCK[self.mode]
        if block == 2000 and 3000 <= index < 3100:
            return float(index - 3000)
        if block == b.get("info") and index == 0:
            return float(SELF)
        if block == b.get("info") and index == 1:
            return float(self.self_id)
        if block == b.get("info") and index == 2:
            return 1.0
        if block == b.get("info_array") and index % INFO_SIZE[self.mode] == 2:
            return float(index // 3 % 3)
        if block == b.get("info_array") and index % INFO_SIZE[self.mode] == 1:
            return float(index // INFO_SIZE[self.mode] * 3 % (self.nreg + 1))
        self.next += 1
        v = float(self.next)
        self.rev[v] = (block, index)
        return v


def subclasses(g, m, cname):
    """Ids of the registered archetypes that are the class or inherit from it."""
    return {a["id"] for a in g.archs[m] if any(k.get("cname") == cname for k in g.mro(a))}


class Layout:
    """Where the named places of one mode were observed to be."""

    def __init__(self, g, m, bad):
        self.g, self.m, self.bad = g, m, bad
        self.slots = {}
        self.globs = {}
        self.exports = {}

    def see(self, key, block, index, how):
        b = BLOCK[self.m]
        if key[0] == "raw":
            if (block, index) != key[1:]:
                self.bad("raw-place", f"{how}: expected place {key[1:]}, found {(block, index)}")
            return
        if key[0] == "glob":
            _, deco, name, f, j = key
            if block != b[deco]:
                self.bad("glob-block", f"{how}: {name}.{f} is in block {block}, not {b[deco]}")
            self.put(self.globs, (deco, name, f, j), index, how)
            return
        st, c, f, j, ent = key
        if ent is None:
            want, base = b[st], 0
        else:
            want, base = b[st + "_array"], (SELF if ent == "self" else ent) * 32
        if block != want:
            self.bad("field-block", f"{how}: field {f} of {c} ({st}, entity {ent}) is in block {block}, not {want}")
            return
        slot = index - base
        if not 0 <= slot < LIMIT[st]:
            self.bad("field-range", f"{how}: component {j} of field {f} of {c} ({st}, entity {ent}) is at index {index}, outside the entity's own {LIMIT[st]} slots")
            return
        self.put(self.slots, (st, c, f, j), slot, how)

    def put(self, d, k, v, how):
        if k in d and d[k][0] != v:
            self.bad("place-moves", f"{how}: {k} is at {v}, but at {d[k][0]} in {d[k][1]}")
        d.setdefault(k, (v, how))


def match(g, m, label, acts, events, w, lay, bad):
    """Walks through the events of one callback; bad(kind, message) on the first that does not fit."""
    ev = list(events)
    pos = 0

    def take(what):
        nonlocal pos
        if pos >= len(ev):
            bad("events", f"{label}: stops after {pos} events, expected {what}")
            return None
        pos += 1
        return ev[pos - 1]
    for x in acts:
        if x[0] == "again":
            if ev[pos:pos + x[1]] == ev[pos - x[1]:pos]:
                pos += x[1]
            continue
        e = take(x)
        if e is None:
            return
        k = x[0]
        if k == "is":
            if e != tuple(ref.canon(v) if isinstance(v, float) else v for v in x[1]):
                return bad("events", f"{label}: event {pos} is {e}, expected {x[1]}")
        elif k in ("log", "rom", "query", "is_at", "calc", "byname"):
            if e[0] != "DebugLog":
                return bad("events", f"{label}: event {pos} is {e}, expected {x}")
            v = e[1]
            if k == "rom":
                if v != ref.canon(f32(x[1])) and v != ref.canon(x[1]):
                    return bad("rom", f"{label}: a constant array's element reads {v!r}, expected {x[1]!r} in single precision")
            elif k == "query":
                if v != ref.canon(ref.query_value(x[1], [x[2]])):
                    return bad("events", f"{label}: event {pos} is not the result of {x[1]}({x[2]})")
            elif k == "calc":
                want = x[1](w)
                if v != ref.canon(want):
                    return bad("state", f"{label}: event {pos} logs {v}, expected {want}")
            elif k == "byname":  # of several archetypes with one name any may be meant
                if v not in [ref.canon(float(z)) for c in g.archs[m] if c["name"] == x[2] for z in (c["id"], c["key"])]:
                    return bad("by-name", f"{label}: event {pos} logs {v} for the archetype named {x[2]!r}")
            elif k == "is_at":
                idv = w.initial(BLOCK[m]["info_array"], x[2] * INFO_SIZE[m] + 1)
                want = float(x[2] >= 0 and (idv in subclasses(g, m, x[3]) if x[4] is None else idv == x[4]))
                if v != want:
                    return bad("is-at", f"{label}: {x[3]}.is_at({x[2]}) is {v} for an entity of archetype {idv}")
            elif x[1][0] == "raw":
                want = w.initial(x[1][1], x[1][2])
                if v != ref.canon(want):
                    return bad("raw-place", f"{label}: event {pos} logs {v} (read from {w.rev.get(v)}), expected what is at {x[1][1:]}")
            else:
                at = w.rev.get(v)
                if at is None:
                    return bad("place-unread", f"{label}: event {pos} logs {v}, which is in no place; expected a read of {x[1]}")
                lay.see(x[1], at[0], at[1], label + " (read)")
        elif k == "store":
            if e[0] != "S" or e[3] != ref.canon(x[2]):
                return bad("store", f"{label}: event {pos} is {e}, expected {x[2]} to be stored to {x[1]}")
            lay.see(x[1], e[1], e[2], label + " (write)")
        elif k == "export":
            if e[0] != "ExportValue" or e[2] != ref.canon(x[2]):
                return bad("store", f"{label}: event {pos} is {e}, expected an export of {x[2]}")
            lay.put(lay.exports, x[1], e[1], label)
        elif k == "spawn":
            _, c, i, vals = x
            if e[0] != "Spawn" or e[1] != float(i):
                return bad("spawn", f"{label}: event {pos} is {e}, expected a spawn of {c} ({i})")
            got = list(e[2:])
            if len(got) > LIMIT["memory"]:
                bad("spawn", f"{label}: spawn with {len(got)} values")
            if sorted(v for v in got if v) != sorted(ref.canon(v) for v in vals.values() if v):
                return bad("spawn", f"{label}: spawn of {c} passes {got}, expected the values {vals}")
            for (f, j), v in vals.items():
                if v:
                    lay.see(("memory", c, f, j, None), BLOCK[m]["memory"], got.index(v), label + " (spawn)")
    if pos != len(ev):
        bad("events", f"{label}: {len(ev) - pos} events too many: {ev[pos:pos + 3]}")


def settle(g, m, lay, archs, bad):
    """The layout rules over everything observed in one mode; archs: the package's archetype entries."""
    byclass = {}
    for (st, c, f, j), (slot, how) in lay.slots.items():
        d = byclass.setdefault((st, c), {})
        if slot in d:
            bad("slot-shared", f"{m}: {f}[{j}] and {d[slot]} of {c} ({st}) share slot {slot} ({how})")
        d[slot] = (f, j)
    defs = {a["cname"]: a for a in g.classes[m]}
    n = 0
    for (st, c, f, j), (slot, how) in lay.slots.items():
        b = defs[c]["base"]
        while b is not None:
            if any(x["name"] == f for x in b["all"]):
                other = lay.slots.get((st, b["cname"], f, j))
                if other:
                    n += 1
                    if other[0] != slot:
                        bad("layout-inherited", f"{m}: {f}[{j}] ({st}) is at slot {slot} in {c} ({how}) but at {other[0]} in its parent {b['cname']} ({other[1]})")
            b = b["base"]
    for dec in ("level_memory", "level_data"):
        seen = {}
        for (d, name, f, j), (idx, how) in lay.globs.items():
            if d == dec:
                if idx in seen or not 0 <= idx < 4096:
                    bad("glob-shared", f"{m}: {name}.{f}[{j}] and {seen.get(idx)} share {dec} index {idx}")
                seen[idx] = (name, f, j)
    for a, entry in zip(g.archs[m], archs):
        imports = entry["imports"]
        byindex = {}
        names = {}
        for x in imports:
            if x["index"] in byindex or not (isinstance(x["index"], int) and 0 <= x["index"] < 32):
                bad("import-index", f"{m}: {a['cname']} imports {x} and {byindex.get(x['index'])} at one index")
            if x["name"] in names:
                bad("import-name", f"{m}: {a['cname']} imports {x['name']!r} twice")
            byindex[x["index"]] = x
            names[x["name"]] = x
        taken = set()
        for f in a["all"]:
            if f["storage"] != "data":
                continue
            for j in range(f["t"].size):
                got = lay.slots.get(("data", a["cname"], f["name"], j))
                if f["t"].comps == [""] and f["loaded"]:
                    x = names.get(f["data"])
                    if x is None:
                        bad("import-missing", f"{m}: {a['cname']} does not import {f['data']!r}; it imports {list(names)}")
                        continue
                    if got and x["index"] != got[0]:
                        bad("import-slot", f"{m}: {a['cname']} imports {f['data']!r} to {x['index']} but uses slot {got[0]} ({got[1]})")
                    want = {"def": f["default"]} if f["default"] is not None else {}
                    if {k: v for k, v in x.items() if k not in ("name", "index")} != want:
                        bad("import-default", f"{m}: {a['cname']} imports {x}, expected {want}")
                    taken.add(x["index"])
                elif got and f["loaded"]:
                    x = byindex.get(got[0])
                    if x is None or not x["name"].startswith(f["data"]):
                        bad("import-slot", f"{m}: component {j} of {f['name']} of {a['cname']} uses slot {got[0]}, where the engine puts {x}")
                if got:
                    n += 1
        want = sum(f["t"].size for f in a["all"] if f["storage"] == "data" and f["loaded"])
        most = sum(f["t"].size for f in a["all"] if f["storage"] == "data")
        if not want <= len(imports) <= most:
            bad("import-count", f"{m}: {a['cname']} has {len(imports)} imports for {want} imported values")
        if m == "play":
            ex = entry["exports"]
            names = {}
            if len(ex) != len(set(ex)) or len(ex) != sum(f["t"].size for f in a["all"] if f["storage"] == "export"):
                bad("export-count", f"{a['cname']} exports {ex}")
            own = {k.get("cname") for k in g.mro(a)}
            for f in a["all"]:
                if f["storage"] == "export":
                    for j in range(f["t"].size):
                        for c in own:
                            got = lay.exports.get((c, f["name"], j))
                            if got:
                                i = got[0]
                                if i != int(i) or not 0 <= i < len(ex) or (ex[int(i)] != f["data"] if f["t"].comps == [""] else not ex[int(i)].startswith(f["data"])):
                                    bad("export-name", f"component {j} of {f['name']} of {c} is exported as number {i} of {a['cname']}: {ex}")
                                if names.setdefault(i, (f["name"], j)) != (f["name"], j):
                                    bad("export-shared", f"{a['cname']}: {names[i]} and {(f['name'], j)} are both export {i}")
                                n += 1
        elif "exports" in entry:
            bad("export-mode", f"{m}: {a['cname']} has exports")
    return n


MODE_KEYS = {"play": {"skin", "effect", "particle", "buckets", "archetypes", "nodes"}, "watch": {"skin", "effect", "particle", "buckets", "archetypes", "nodes", "updateSpawn"},
             "preview": {"skin", "archetypes", "nodes"}, "tutorial": {"skin", "effect", "particle", "instruction", "preprocess", "navigate", "update", "nodes"}}


def declared(g, m, d, bad, built=True):
    """The parts of one mode's package that are lists of declarations."""
    res = g.res.get(m, {}) if built else {}

    def names(kind):
        x = res.get(kind)
        return [{"name": n, "id": i} for i, n in enumerate(x[2] if x else [])]
    if set(d) - {"archetypes"} != MODE_KEYS[m] - {"archetypes"} or (m != "tutorial" and "archetypes" not in d):
        bad("mode-keys", f"{m}: the package holds {sorted(d)}")
        return
    sk = res.get("skin")
    want = {"skin": {"renderMode": sk[3] if sk else "default", "sprites": names("skin")}}
    if m != "preview":
        want["effect"] = {"clips": names("effect")}
        want["particle"] = {"effects": names("particle")}
    if m in ("play", "watch"):
        want["buckets"] = res["bucket"][2] if res.get("bucket") else []
    if m == "tutorial":
        want["instruction"] = {"texts": names("text"), "icons": names("icon")}
    for k, v in want.items():
        if d[k] != v:
            bad(f"declared-{k}", f"{m}: {k} is {json.dumps(d[k], ensure_ascii=False)[:700]}, declared {json.dumps(v, ensure_ascii=False)[:700]}")
    if m == "tutorial":
        return
    archs = g.archs.get(m, []) if built else []
    got = d["archetypes"]
    if [(x.get("name"), x.get("hasInput")) for x in got] != [(a["name"], a["scored"]) for a in archs]:
        bad("archetypes", f"{m}: archetypes {[(x.get('name'), x.get('hasInput')) for x in got]}, declared {[(a['name'], a['scored']) for a in archs]}")
        return
    for a, x in zip(archs, got):
        cbs = {CBS[m][k][0]: o for k, (_, o) in g.callbacks(a).items()}
        have = {k: v for k, v in x.items() if k not in ("name", "hasInput", "imports", "exports")}
        if set(have) != set(cbs):
            bad("callbacks", f"{m}: {a['cname']} has the callbacks {sorted(have)}, declared {sorted(cbs)}")
            continue
        for k, v in have.items():
            if set(v) != {"index", "order"} or v["order"] != cbs[k]:
                bad("order", f"{m}: {a['cname']}.{k} is {v}, declared order {cbs[k]}")


def configuration(g, d, bad):
    want = {"options": [o for _, o, _ in g.options], "ui": g.ui_doc}
    if d != want:
        for k in sorted(set(want) | set(d)):
            if d.get(k) != want.get(k):
                if k == "options" and isinstance(d.get(k), list):
                    for i, (x, y) in enumerate(zip(d[k], want[k])):
                        if x != y:
                            return bad("configuration", f"option {i} is {x}, declared {y}")
                bad("configuration", f"{k} is {json.dumps(d.get(k))[:900]}, declared {json.dumps(want.get(k))[:900]}")


def programs(g, m, d, nodes, bad):
    """(label, actions, tree, own archetype id) of every program of the mode."""
    if m != "tutorial":
        for a, x in zip(g.archs[m], d["archetypes"]):
            for k, (acts, _) in g.callbacks(a).items():
                n = CBS[m][k][0]
                if n in x:
                    yield f"{m} {a['cname']}.{n}", acts, nodes.at(x[n]["index"]), a["id"]
    for (mm, n), (f, acts) in g.gcbs.items():
        if mm == m and n in d:
            yield f"{m} {n}", acts, nodes.at(d[n]), 0


def observe(g, docs, romv, bad, count):
    """Runs every program of every mode."""
    lays = {}
    for m, d in docs.items():
        if m not in g.modes:
            continue
        nodes = Nodes(d["nodes"], bad)
        lay = lays[m] = Layout(g, m, bad)
        trees = {}
        for label, acts, tree, sid in programs(g, m, d, nodes, bad):
            w = World(m, len(g.archs.get(m, ())), sid, romv)
            k = id(tree)
            if k not in trees:
                trees[k] = ref.Tree(tree)
            try:
                ev = ref.run_tree(trees[k], w, 200000)[0]
            except (ref.Fault, ref.Undefined, ref.BadProgram, ref.StepLimit) as e:
                bad("fault", f"{label}: the decoded program fails: {e!r}")
                continue
            match(g, m, label, acts, ev, w, lay, bad)
            count("programs-run")
            count("events", len(ev))
        if m != "tutorial" and len(d["archetypes"]) == len(g.archs[m]):
            count("places", len(lay.slots) + len(lay.globs) + len(lay.exports))
            count("layout-facts", settle(g, m, lay, d["archetypes"], bad))
    return lays
