"""One process of P09: compiles the listed items in the given order, with other activity in between,
and writes down a digest of every artefact.  Run as: p09child.py SPEC OUT"""
import contextlib
import dataclasses
import gc
import hashlib
import importlib.util
import io
import json
import os
import random
import shutil
import sys
import threading
from pathlib import Path


def sha(b):
    return hashlib.sha1(b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def run(spec, out):
    sys.path[:0] = [spec["tree"], spec["lib"]]
    sys.dont_write_bytecode = True
    import shim  # noqa: F401
    r = random.Random(spec["junk"])
    if spec["shuffle"]:
        ls, sc = os.listdir, os.scandir

        def listdir(*a):
            x = ls(*a)
            r.shuffle(x)
            return x

        class Scan:
            def __init__(self, *a):
                with sc(*a) as it:
                    self.x = list(it)
                r.shuffle(self.x)

            def __enter__(self):
                return iter(self.x)

            def __exit__(self, *a):
                pass

            def __iter__(self):
                return iter(self.x)

            def close(self):
                pass
        os.listdir, os.scandir = listdir, Scan
    if spec["gc"]:
        gc.set_threshold(*spec["gc"])
    keep = [object() for _ in range(r.randrange(20000))]  # other addresses
    import cfggen
    import cfgser
    import vin
    from optcheck import LEVELS
    from sonolus.backend.ir import IRConst
    from sonolus.backend.mode import Mode
    from sonolus.backend.optimize import OptimizerConfig, cfg_to_engine_node, optimize_and_finalize, run_passes
    from sonolus.build import engine as be
    from sonolus.build import project as bp
    from sonolus.build.compile import callback_to_cfg
    from sonolus.script.array import Array
    from sonolus.script.engine import Engine
    from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks
    from sonolus.script.internal.error import CompilationError
    from sonolus.script.level import Level, LevelData
    from sonolus.script.num import Num
    from sonolus.script.project import BuildConfig, Project
    mods = {}

    def module(path):
        if path not in mods:
            name = Path(path).stem
            s = importlib.util.spec_from_file_location(name, path)
            m = importlib.util.module_from_spec(s)
            sys.modules[name] = m
            s.loader.exec_module(m)
            mods[path] = m
        return mods[path]

    def config(it, verbose=False):
        return BuildConfig(passes=LEVELS[it["level"]], runtime_checks=RuntimeChecks[it["checks"]], verbose=verbose, **{f"build_{m}": m in it["build"] for m in ("play", "watch", "preview", "tutorial")})

    def engine(it):
        with contextlib.redirect_stdout(io.StringIO()):
            p = be.package_engine(module(it["path"]).data, config(it, r.random() < spec["verbose"]))
        return {f.name: sha(getattr(p, f.name)) for f in dataclasses.fields(p)}

    def script(it):
        m = module(it["path"])
        vin.CONS[:] = it["cons"]
        try:
            ps = ProjectContextState(runtime_checks=RuntimeChecks[it["checks"]])
            ms = ModeContextState(Mode.PLAY, None)
            cfg = callback_to_cfg(ps, ms, m.main, "updateSequential", None)
        except CompilationError as e:
            return {"error": sha(str(e))}
        except (TypeError, ValueError) as e:
            return {"error": sha(str(e))}
        d = {"rom": sha(repr(ps.rom.values))}
        return {**d, **optimise(cfg, Mode.PLAY, "updateSequential", it["level"])}

    def optimise(cfg, mode, cb, level):
        before = json.dumps(cfgser.dump(cfg, mode, cb))
        c = OptimizerConfig(mode, cb)
        t = optimize_and_finalize(cfg, LEVELS[level], c)
        d = {"tree": sha(repr(t)), "cfg": sha(before)}
        if json.dumps(cfgser.dump(cfg, mode, cb)) != before:
            d["modified"] = sha(json.dumps(cfgser.dump(cfg, mode, cb)))
        e = run_passes(cfg, LEVELS[level], c)
        if json.dumps(cfgser.dump(cfg, mode, cb)) != before:
            d["modified by run_passes"] = sha(json.dumps(cfgser.dump(cfg, mode, cb)))
        d["passes"] = sha(json.dumps(cfgser.dump(e, mode, cb)))
        mid = json.dumps(cfgser.dump(e, mode, cb))
        d["emitted"] = sha(repr(cfg_to_engine_node(e)))
        if json.dumps(cfgser.dump(e, mode, cb)) != mid:
            d["modified by emission"] = True
        u = optimize_and_finalize(cfg, LEVELS[level], c)
        if repr(u) != repr(t):
            d["second"] = sha(repr(u))
        return d

    def cfg(it):
        entry, mode, cb = cfgser.load(it["d"])
        return optimise(entry, mode, cb, it["level"])

    def threads(it):
        progs = [cfgser.load(d) for d in it["ds"]]
        want = [None] * len(progs)
        order = list(range(len(progs)))
        r.shuffle(order)

        def go(ks):
            for k in ks:
                entry, mode, cb = progs[k]
                want[k] = sha(repr(optimize_and_finalize(entry, LEVELS[it["level"]], OptimizerConfig(mode, cb))))
        n = r.choice([1, 2, 4])
        ts = [threading.Thread(target=go, args=(order[i::n],)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return {str(k): v for k, v in enumerate(want)}

    def project(it):
        if it["kind"] == "sample":
            sys.path.insert(0, spec["tree"] + "/test_projects")
            from pydori.project import project as prj
            prj.resources = Path(it["resources"])
            for k in ("skin", "background", "effect", "particle"):
                setattr(prj.engine, k, None)
                for lv in prj.levels:
                    setattr(lv, "use_" + k, None)
        else:
            m = module(it["path"])
            eng = Engine(name="e", title={"ja": "x", "ko": "y"}, data=m.data)
            lv = [Level(name=f"n{i}", data=LevelData(i, [getattr(m, c)() for c in it["classes"][:i]])) for i in range(3)]
            prj = Project(eng, lv, Path(it["resources"]))
        return prj

    def site(it):
        prj = project(it)
        dst = Path(spec["scratch"]) / "site"
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                bp.build_project_to_collection(prj, config(it)).write(dst)
            return {str(f.relative_to(dst)): sha(f.read_bytes()) for f in sorted(dst.rglob("*")) if f.is_file()}
        finally:
            shutil.rmtree(dst, ignore_errors=True)
    doers = dict(engine=engine, script=script, cfg=cfg, threads=threads, site=site, sample=site)

    def junk():
        q = r.randrange(12)
        if q == 0:
            for v in (-0.0, 2.0, True, False, 1, 3.0, -1.0):
                IRConst(v)
                Num(v)
        elif q == 1:
            gc.collect()
        elif q == 2:
            keep.append([object() for _ in range(r.randrange(5000))])
        elif q == 3 and keep:
            keep.pop(r.randrange(len(keep)))
        elif q == 4:
            random.seed(r.random())
        elif q == 5:  # a program that is refused
            m = module(spec["failing"])
            ps, ms = ProjectContextState(), ModeContextState(Mode.PLAY, None)
            for f in m.FAILING:
                try:
                    callback_to_cfg(ps, ms, f, "updateSequential", None)
                except Exception:
                    pass
        elif q == 6:
            p = cfggen.gen(r.randrange(1 << 30), 0.4)
            optimize_and_finalize(p.entry, LEVELS[r.choice(sorted(LEVELS))], OptimizerConfig(p.mode, p.callback))
        elif q == 7:
            it = r.choice(spec["items"])
            if it["kind"] == "engine":
                be.validate_engine(module(it["path"]).data, config(it))
        elif q == 8:
            it = r.choice(spec["items"])
            if it["kind"] in ("engine", "script", "site"):
                module(it["path"])
        elif q == 9:
            it = dict(r.choice(spec["items"]))
            if it["kind"] in ("engine", "script"):  # otherwise configured
                doers[it["kind"]](dict(it, level=r.choice(sorted(LEVELS)), checks=r.choice(["NONE", "TERMINATE", "NOTIFY_AND_TERMINATE"])))
        elif q == 10:
            Array(1.5, 2.5, r.random())
            Array(0, 1) == Array(0.0, 1)
        elif q == 11:
            it = r.choice(spec["items"])
            if it["kind"] == "script":  # run as Python
                from sonolus.script.debug import debug_log_callback
                vin.INPUTS[:] = [1.0] * 16
                vin.CONS[:] = it["cons"]
                tok = debug_log_callback.set(lambda x: 0)
                try:
                    module(it["path"]).main()
                except Exception:
                    pass
                finally:
                    debug_log_callback.reset(tok)
    res = []
    for k in spec["order"]:
        for _ in range(r.choice([0, 0, 1, 2, 5]) if spec["noise"] else 0):
            junk()
        it = spec["items"][k]
        res.append([k, doers[it["kind"]](it)])
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    fail = []

    def go():
        try:
            run(spec, sys.argv[2])
        except BaseException:
            import traceback
            fail.append(traceback.format_exc())
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if fail:
        print(fail[0], flush=True)
        os._exit(3)
    os._exit(0)
