#!/usr/bin/env python3
"""Development tool: confirms a planted bug in a scratch copy (tests pass, demo distinguishes) and runs checks against it.
   seedtest.py ID [--checks C01,C02|own|all] [--no-tests]       (no registered command uses this)"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--no-tests", action="store_true")
    a = ap.parse_args()
    for i in a.ids:
        one(i, a)


def one(i, a):
    sd = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    out = []
    try:
        repo = os.path.join(w, "repo")
        sh(["git", "clone", "-q", "/repo", repo])
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src") + ":/opt/vp/lib", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1")
        demo = os.path.join(w, "demo")
        shutil.copytree(sd, demo)
        if not a.no_tests:
            r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo, env=env)
            out.append("demo-clean %s" % ("ok" if r.returncode == 0 else "BAD: " + r.stdout[-1500:]))
        r = sh(["git", "apply", os.path.join(sd, "patch.diff")], cwd=repo)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout)
            return
        if not a.no_tests:
            r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo, env=env)
            out.append("demo-bug %s (%s)" % ("ok" if r.returncode else "BAD: passes", r.stdout.strip()[-200:]))
            r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate --timeout=300 -n 8 --dist loadfile --basetemp=%s/t 2>&1 | tail -4" % w, cwd=repo, env=env)
            out.append("tests %s" % (r.stdout.strip().splitlines() or ["?"])[-1])
            if "failed" in r.stdout:
                out.append(r.stdout)
        ids = [meta["property"]] if a.checks == "own" else [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]] \
            if a.checks == "all" else [c for c in a.checks.split(",") if c]
        for c in ids:
            e = dict(os.environ, QUOCS_SRC=os.path.join(repo, "src"), QUOCS_EVIDENCE=os.path.join(w, "ev"))
            r = sh([os.path.join(ROOT, "check.sh"), c], env=e)
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "violat" in x.lower()]
            out.append("%s exit %d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "?? " + r.stdout[-500:]))
    finally:
        shutil.rmtree(w)
    print(i, meta["property"], *out, sep="\n   ", flush=True)


main()
