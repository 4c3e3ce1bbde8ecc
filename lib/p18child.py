"""Starts pristine processes for P18 by forking: development servers and single builds.  Run as: p18child.py TREE LIB"""
import argparse
import ctypes
import json
import os
import signal
import sys
import traceback
from pathlib import Path

sys.path[:0] = [sys.argv[1], sys.argv[2]]
import shim  # noqa: E402, F401
import sonolus.build.cli as cli  # noqa: E402
from sonolus.script.internal.context import ProjectContextState  # noqa: E402


def child(job):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    os.chdir(job["cwd"])
    out = os.open(job["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    inp = os.open(job.get("in") or "/dev/null", os.O_RDWR if job.get("in") else os.O_RDONLY)
    for a, b in ((inp, 0), (out, 1), (out, 2)):
        os.dup2(a, b)
    sys.stdin = open(0, closefd=False)
    sys.stdout = open(1, "w", buffering=1, closefd=False)
    sys.stderr = open(2, "w", buffering=1, closefd=False)
    sys.path[:] = [p for p in sys.path if p != sys.argv[2]]
    try:
        if job["op"] == "dev":
            sys.argv[:] = ["sonolus", "dev", "proj.project", "--build-dir", job["build"], "--port", str(job["port"]), job["level"]]
            cli.main()
        else:
            config = cli.get_config(argparse.Namespace(command="dev", **{{"-O0": "optimize_minimal", "-O1": "optimize_fast", "-O2": "optimize_standard"}[job["level"]]: True}))
            sys.setrecursionlimit(10_000)
            project, _, _ = cli.import_project("proj.project")
            if project is None:
                os._exit(3)
            ps = ProjectContextState.from_build_config(config)
            cli.build_collection(project, Path(job["build"]), config, project_state=ps)
            Path(job["codes"]).write_text(json.dumps({str(v): k for k, v in ps.debug_str_mappings.items()}))
        sys.stdout.flush()
        os._exit(0)
    except SystemExit as e:
        sys.stdout.flush()
        os._exit(e.code if isinstance(e.code, int) else 1)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(1)


pids = set()
for line in iter(sys.stdin.readline, ""):
    job = json.loads(line)
    if job["op"] == "reap":
        got, st = os.waitpid(job["pid"], os.WNOHANG)
        if not got and job.get("kill"):
            os.kill(job["pid"], signal.SIGKILL)
            got, st = os.waitpid(job["pid"], 0)
        if got:
            pids.discard(job["pid"])
        print(json.dumps(os.waitstatus_to_exitcode(st) if got else None), flush=True)
        continue
    pid = os.fork()
    if not pid:
        child(job)
    if job["op"] == "dev":
        pids.add(pid)
        print(json.dumps(pid), flush=True)
    else:
        print(json.dumps(os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])), flush=True)
for p in pids:
    os.kill(p, signal.SIGKILL)
