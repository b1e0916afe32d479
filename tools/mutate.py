#!/usr/bin/env python3
"""Development tool: quick look whether checks see small changes.  mutate.py LIST.py [-j N] [--only regex] [--checks own|C01,..] [--tests]
   LIST.py: M = [(name, "C13" or "C13,C14", [(file under src/quocslib, old, new), ...]), ...]   (no registered command uses this)"""
import argparse
import os
import re
import runpy
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(m, a):
    name, props, edits = m
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        repo = os.path.join(w, "repo")
        sh(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), repo])
        for f, old, new in edits:
            p = os.path.join(repo, "src", "quocslib", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%-34s BAD EDIT: %d matches in %s" % (name, s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        out = []
        if a.tests:
            env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src") + ":/opt/vp/lib", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
                       OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1")
            r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate --timeout=300 -n 4 --dist loadfile --basetemp=%s/t 2>&1 | tail -3" % w, cwd=repo, env=env)
            out.append("tests[%s]" % (r.stdout.strip().splitlines() or ["?"])[-1].strip("= "))
        for c in (props if a.checks == "own" else a.checks).split(","):
            e = dict(os.environ, QUOCS_SRC=os.path.join(repo, "src"), QUOCS_EVIDENCE=os.path.join(w, "ev"))
            r = sh([os.path.join(ROOT, "check.sh"), c], env=e)
            inc = len([x for x in r.stdout.splitlines() if "INCONCL" in x or "inconclusive:" in x])
            v = [x for x in r.stdout.splitlines() if x.strip().startswith(("label", "assertion", "violated"))]
            out.append("%s %s%s" % (c, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "??%d" % r.returncode, " (inc %d)" % inc if inc else ""))
            if r.returncode not in (0, 1):
                out.append(r.stdout[-800:])
        return "%-34s %s" % (name, "; ".join(out))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("list")
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("--only", default="")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--tests", action="store_true")
    a = ap.parse_args()
    M = [m for m in runpy.run_path(a.list)["M"] if re.search(a.only, m[0])]
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda m: one(m, a), M):
            print(r, flush=True)


main()
