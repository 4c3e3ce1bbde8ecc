"""Runs one check: builds /repo's tree, runs the workload in worker processes, aggregates what the
monitors saw, writes evidence, and gives a three-valued verdict:
  exit 0  held on everything observed
  exit 1  violated: a line "VIOLATION property=<id> replay=<path>"
  exit 2  inconclusive (the monitors observed too little, or the harness itself failed)
"""
import argparse
import collections
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(VERIF, "lib")
CHECKS = os.path.join(VERIF, "checks")
PY = "/opt/venv/bin/python"


class Stop(Exception):
    pass


class Ctx:
    """What a workload sees."""

    def __init__(self, prop, tier, seed, worker, nworkers, budget, out, tree, scratch):
        self.prop, self.tier, self.seed, self.worker, self.nworkers = prop, tier, seed, worker, nworkers
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.budget = budget
        self.out = out
        self.tree = tree
        self.scratch = scratch
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.keys = collections.Counter()
        self.n = 0
        self.quick = tier == "quick"

    def rng(self, *key):
        return random.Random(f"{self.seed}|{self.prop}|{self.worker}|{key}")

    def left(self):
        return self.deadline - time.time()

    def over(self):
        return time.time() >= self.deadline

    def cases(self, limit=None):
        """Case numbers, distinct over workers, until the time budget is used up."""
        i = 0
        while not self.over() and (limit is None or i < limit):
            self.n = i
            yield self.seed * 10_000_000 + i * self.nworkers + self.worker
            i += 1

    def mark(self, what):
        """Names the case in progress, so that a crash of the process can be attributed."""
        with open(self.out + ".cur", "w") as f:
            json.dump(what, f)

    def count(self, key, n=1):
        self.counts[key] += n

    def distinct(self, sig):
        self.sigs.add(hash(sig) if not isinstance(sig, (str, int)) else sig)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, message, replay):
        self.keys[key] += 1
        if self.keys[key] <= 1:
            self.violations.append({"key": key, "message": message[:4000], "replay": replay})
            self.flush(False)
        if len(self.violations) >= 4 or sum(self.keys.values()) > 40:
            raise Stop

    def flush(self, done, error=None):
        d = {"counts": dict(self.counts), "distinct": len(self.sigs), "sigs": list(self.sigs)[:200000],
             "samples": self.samples, "violations": self.violations, "done": done, "error": error}
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(d, f)
        os.replace(tmp, self.out)


def setup_paths(tree):
    for p in (tree, LIB, CHECKS):
        while p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [tree, LIB, CHECKS]
    sys.dont_write_bytecode = True
    import shim  # noqa: F401


def worker_main(argv):
    prop, tier, seed, worker, n, budget, out, tree, scratch = argv
    setup_paths(tree)
    sys.setrecursionlimit(200000)
    ctx = Ctx(prop, tier, int(seed), int(worker), int(n), float(budget), out, tree, scratch)
    mod = importlib.import_module(MODULES[prop])

    def go():
        try:
            mod.work(ctx)
            ctx.flush(True)
        except Stop:
            ctx.flush(True)
        except BaseException as e:
            tb = traceback.format_exc()
            frames = traceback.extract_tb(e.__traceback__)
            if frames and frames[-1].filename.startswith(tree) and not isinstance(e, (KeyboardInterrupt, AttributeError, ImportError)):
                # the code under test raised on an input the workload holds to be valid
                cur = None
                if os.path.exists(out + ".cur"):
                    with open(out + ".cur") as f:
                        cur = json.load(f)
                ctx.violations.append({"key": f"raised:{type(e).__name__}", "message": tb[-3000:], "replay": {"crash": cur}})
                ctx.flush(True)
            else:
                ctx.flush(True, tb)

    if os.environ.get("VERIF_ASLIMIT"):
        import resource

        b = int(os.environ["VERIF_ASLIMIT"]) << 20
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(0)


MODULES = {f"P{i:02d}": f"p{i:02d}" for i in range(1, 31)}


def known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        return worker_main(sys.argv[2:])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    sys.path[:0] = [LIB, CHECKS]
    import buildrepo

    meta = importlib.import_module("meta").CHECKS[a.prop]
    kinds = meta.get("trees") or [meta.get("build", "release")]
    if len(kinds) > 1:
        ps = [subprocess.Popen([PY, os.path.join(LIB, "buildrepo.py"), k], stdout=subprocess.DEVNULL) for k in kinds]
        if any([p.wait() for p in ps]):
            raise SystemExit(2)
    trees = [buildrepo.tree(k) for k in kinds]
    tree = trees[0]
    if a.replay and meta.get("build") == "asan" and "LD_PRELOAD" not in os.environ:
        os.execve(PY, [PY, *sys.argv], dict(os.environ, **asan_env(tree, "stderr")) | {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"})
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    os.chmod(scratch, 0o755)
    try:
        if a.replay:
            setup_paths(tree)
            sys.setrecursionlimit(200000)
            with open(a.replay) as f:
                r = json.load(f)
            ctx = Ctx(a.prop, a.tier, a.seed, 0, 1, 600, os.path.join(scratch, "w0"), tree, scratch)
            mod = importlib.import_module(MODULES[a.prop])
            try:
                mod.replay(ctx, r["replay"])
            except Stop:
                pass
            for v in ctx.violations:
                print(v["message"])
            print("reproduced" if ctx.violations else "not reproduced")
            return 1 if ctx.violations else 0
        return run(a, meta, trees, scratch, t0)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def asan_env(tree, out):
    libs = [subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
            for n in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
    libs.append(os.path.join(tree, "sonolus/backend/_opt/libverifalloc.so.1"))
    return {"LD_PRELOAD": " ".join(libs), "PYTHONMALLOC": "malloc",
            "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=" + out + ".asan",
            "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1:log_path=" + out + ".asan"}


def run(a, meta, trees, scratch, t0):
    budget = a.budget or meta[a.tier]
    nw = a.workers or meta.get("workers", 8)
    procs = []
    for w in range(nw):
        out = os.path.join(scratch, f"w{w}")
        sub = os.path.join(scratch, f"s{w}")
        os.makedirs(sub)
        env = dict(os.environ, PYTHONHASHSEED=str((a.seed * 97 + w * 13) % 4294967295), PYTHONDONTWRITEBYTECODE="1", HOME=sub, LANG="C.UTF-8")
        env.pop("PYTHONPATH", None)
        env.update(meta.get("env", {}))
        if meta.get("build") != "asan":
            # small programs: running out of this is growth without bound
            env["VERIF_ASLIMIT"] = str(meta.get("memory_mb", 3000))
        wtree = trees[w % meta.get("sanitized", len(trees))]
        if meta.get("build") == "asan":
            env.update(asan_env(wtree, out))
        log = open(out + ".log", "w")
        procs.append(subprocess.Popen([PY, "-X", "faulthandler", os.path.join(CHECKS, "run.py"), "--worker", a.prop, a.tier, str(a.seed), str(w), str(nw),
                                       str(budget), out, wtree, sub], cwd=sub, env=env, stdout=log, stderr=log, start_new_session=True))
    grace = meta.get("grace", 60)
    limit = time.time() + budget + grace
    hung = []
    for w, p in enumerate(procs):
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            hung.append(w)
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    counts = collections.Counter()
    sigs = set()
    samples, viols, errors = [], [], []
    ndist = 0
    for w, p in enumerate(procs):
        out = os.path.join(scratch, f"w{w}")
        d = None
        if os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            counts.update(d["counts"])
            sigs.update(d["sigs"])
            ndist += d["distinct"]
            samples += d["samples"]
            viols += d["violations"]
            if d["error"]:
                errors.append(f"worker {w}: {d['error']}")
        reports = "".join(open(os.path.join(scratch, f)).read() for f in sorted(os.listdir(scratch)) if f.startswith(f"w{w}.asan"))
        if w in hung or p.returncode != 0 or d is None or not d["done"]:
            tail = open(out + ".log").read()[-3000:]
            cur = None
            if os.path.exists(out + ".cur"):
                with open(out + ".cur") as f:
                    cur = json.load(f)
            if p.returncode and p.returncode < 0 and w not in hung and (p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)):
                viols.append({"key": "crash", "message": f"the process died with signal {-p.returncode}\n{reports[:3000]}\n{tail}", "replay": {"crash": cur}})
            elif w in hung and cur is not None and meta.get("hang_is_violation"):
                viols.append({"key": "hang", "message": "the operation in progress did not return", "replay": {"hang": cur}})
            else:
                errors.append(f"worker {w}: exit {p.returncode} hung={w in hung} cur={json.dumps(cur)[:500]} log={tail}")
        elif reports:
            viols.append({"key": "sanitizer", "message": reports[:4000], "replay": {"report": reports[:20000]}})
    kf = [k for k in known() if k["property"] == a.prop]
    fresh, seen_known = [], {}
    for v in viols:
        k = next((k for k in kf if k["key"] == v["key"]), None)
        if k:
            seen_known[k["key"]] = k
        else:
            fresh.append(v)
    for k in kf:
        # a listed finding is reported on every run, whether or not this run happened to hit it
        print(f"KNOWN-FINDING: property={a.prop} {k['text']}")
    evals = counts.get("evaluations", 0)
    cov = {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": meta["rule"], "samples": samples[:6] or ["none"],
           "observed": {k: v for k, v in sorted(counts.items())}}
    if meta["level"] == "translation_validation":
        cov["programs"] = counts.get("programs", 0)
        cov["disagreements_checked"] = counts.get("comparisons", 0)
    rdir = os.path.join(VERIF, "replays")
    lines = []
    bykey = {}
    for v in fresh:
        bykey.setdefault(v["key"], v)
    for i, v in enumerate(bykey.values()):
        try:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{a.prop}-{a.tier}-{a.seed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": a.prop, "key": v["key"], "message": v["message"], "replay": v["replay"]}, f, indent=1)
        except OSError:
            path = "unwritable"
        print(f"--- {a.prop} [{v['key']}]\n{v['message']}")
        lines.append(f"VIOLATION property={a.prop} replay={path}")
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bykey)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} {a.tier} seed={a.seed}: {evals} evaluations, {len(sigs)} distinct non-trivial, {ev['wall_s']} s; " +
          ", ".join(f"{k}={v}" for k, v in sorted(counts.items())[:40]))
    for e in errors:
        print("HARNESS-ERROR " + e[:3000], file=sys.stderr)
    if lines:
        for ln in lines:
            print(ln)
        return 1
    floor = meta["floor"]
    low = [f"{k}={counts.get(k, 0)}<{v}" for k, v in floor.items() if counts.get(k, 0) < v]
    if errors or low or not sigs:
        print("INCONCLUSIVE " + "; ".join(low or ["harness error"]))
        return 2
    return 0
