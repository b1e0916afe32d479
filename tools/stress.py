#!/usr/bin/env python3
"""Development tool: runs the concrete side of a check's harness with nasty inputs (end points, ties, tiny offsets, random numbers).
On a tree on which the property holds every failing assertion shows that the assertion is too sharp for floating point or for ties.
  stress.py C01 [regex] [--n 200] [--tier quick]
Not part of any check."""
import argparse
import collections
import json
import os
import random
import re
import sys
import traceback
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def work(a):
    cid, cfg, n, seed = a
    from symex import engine, loader, runner
    if loader.MODE is None:
        loader.world("conc")
    mod = runner.load(cid)
    rng = random.Random(seed)

    class Ctx(engine.ConcreteCtx):
        def real(self, name, lo=-10.0, hi=10.0, open_hi=False, open_lo=False):
            name = self._name(name)
            k = rng.random()
            if k < 0.15:
                v = lo
            elif k < 0.3:
                v = hi
            elif k < 0.4:
                v = (lo + hi) / 2
            elif k < 0.6 and self.seen:
                v = rng.choice(self.seen)
            elif k < 0.7 and self.seen:
                v = rng.choice(self.seen) + rng.choice([-1, 1]) * rng.choice([1e-3, 1e-6, 1e-7, 1e-9, 1e-12])
            elif k < 0.85:
                v = lo + (hi - lo) * rng.randrange(65) / 64
            else:
                v = rng.uniform(lo, hi)
            v = min(max(v, lo), hi)
            self.seen.append(v)
            self.values[name] = v
            return v

        def int(self, name, lo, hi):
            name = self._name(name)
            v = rng.randint(lo, hi)
            self.values[name] = v
            return v

        def bool(self, name):
            name = self._name(name)
            v = rng.random() < 0.5
            self.values[name] = v
            return v
    out, ok, assumed = [], 0, 0
    for i in range(n):
        ctx = Ctx({})
        ctx.seen = []
        ctx.floor = 1e-5 if cfg.get("ad") else 0.0
        try:
            mod.HARNESS[cfg["h"]](ctx, cfg)
            ok += 1
        except engine.PathEnd:
            assumed += 1
        except Exception as ex:
            ctx.violations.append({"label": "exception " + type(ex).__name__, "info": traceback.format_exc()[-600:]})
        for v in ctx.violations[:3]:
            out.append((v["label"], v["info"], dict(ctx.values)))
    return cfg["name"], ok, assumed, out[:20], collections.Counter(o[0] for o in out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("only", nargs="?", default="")
    ap.add_argument("--n", type=int, default=150)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    os.environ["JAX_PLATFORMS"] = "cpu"
    from symex import runner
    mod = runner.load(a.check.upper())
    cfgs = [c for c in mod.configs(a.tier) if re.search(a.only, c["name"])]
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for name, ok, assumed, out, cnt in ex.map(work, [(a.check.upper(), c, a.n, a.seed + i) for i, c in enumerate(cfgs)]):
            if cnt or not ok:
                bad += 1
                print(name, "ok", ok, "assume", assumed, dict(cnt))
                for l, i, v in out[:2] if a.v else []:
                    print("    ", l, i, json.dumps(v))
    print(a.check, len(cfgs), "configurations,", bad, "with failures")


main()
