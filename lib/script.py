"""Compiling and running script functions: the real frontend and optimiser, the independent executor."""
import ctypes
import importlib.util
import itertools
import os
import sys
import threading

import ref
import vin
from optcheck import LEVELS
from sonolus.backend.mode import Mode
from sonolus.backend.optimize import OptimizerConfig, optimize_and_finalize
from sonolus.build.compile import callback_to_cfg
from sonolus.script.debug import debug_log_callback, simulation_context
from sonolus.script.internal.context import ModeContextState, ProjectContextState, RuntimeChecks

_n = itertools.count()


def module(ctx, src, keep=False):
    """Imports generated source from a real file (the frontend reads function source back)."""
    name = f"gen_{os.getpid()}_{next(_n)}"
    path = os.path.join(ctx.scratch, name + ".py")
    with open(path, "w") as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    m._path_ = path
    return m


def forget(m):
    sys.modules.pop(m.__name__, None)
    try:
        os.remove(m._path_)
    except OSError:
        pass
    import linecache
    linecache.cache.pop(m._path_, None)
    clear()


def clear():
    try:
        from sonolus.script.internal.visitor import clear_frontend_caches
        clear_frontend_caches()
    except ImportError:
        pass


class Compiled:
    """A compiled callback with its trees at the chosen levels."""

    def __init__(self, fn, checks=RuntimeChecks.NONE, mode=Mode.PLAY, callback="updateSequential", levels=("minimal", "fast", "standard"), archetype=None, archetypes=None):
        for a in archetypes or ():
            a._init_fields()
        ps = ProjectContextState(runtime_checks=checks)
        ms = ModeContextState(mode, {a: i for i, a in enumerate(archetypes)} if archetypes else None)
        self.cfg = callback_to_cfg(ps, ms, fn, callback, archetype)
        self.rom = list(ps.rom.values)
        self.mode, self.callback, self.project = mode, callback, ps
        self.trees = {lv: ref.Tree(optimize_and_finalize(self.cfg, LEVELS[lv], OptimizerConfig(mode, callback))) for lv in levels}

    def world(self, inputs=(), seed=0, gen=None, mem=None):
        def g(block, index):
            if mem is not None and (block, index) in mem:
                return mem[(block, index)]
            if block == vin.IN_BLOCK and vin.IN_BASE <= index < vin.IN_BASE + len(inputs):
                return float(inputs[int(index) - vin.IN_BASE])
            return gen(block, index) if gen else float(-77 - index)
        return ref.World(seed, rom=self.rom, gen=g)

    def run(self, level, world, limit=2_000_000):
        return ref.run_tree(self.trees[level], world, limit)[0]

    def direct(self, world, limit=2_000_000):
        return ref.CfgExec(self.cfg, world, limit).run()


def logs(events):
    return [e[1] for e in events if e[0] == "DebugLog"]


def python_run(fn, inputs, sim=False):
    """(log, result or None, exception or None) of running the source in CPython."""
    vin.INPUTS[:] = list(inputs)
    log = []

    def cb(x):
        log.append(ref.canon(float(getattr(x, "data", x))))
        return 0

    tok = debug_log_callback.set(cb)
    try:
        if sim:
            with simulation_context():
                r = fn()
        else:
            r = fn()
        return log, r, None
    except Exception as e:
        return log, None, e
    finally:
        debug_log_callback.reset(tok)


class Slow(BaseException):
    pass


class limited:
    """Raises Slow in this thread if the body takes longer (a shrunk program may loop for ever)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        tid = threading.get_ident()
        self.on = True

        def fire():
            if self.on:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(Slow))
        self.t = threading.Timer(self.seconds, fire)
        self.t.daemon = True
        old = threading.stack_size(0)
        self.t.start()
        threading.stack_size(old)

    def __exit__(self, *a):
        self.on = False
        self.t.cancel()
