"""Runs one check: explores every configuration symbolically (8 processes share the path prefixes), replays every
solver counterexample and a sample of path witnesses on the real code, writes the evidence, prints the verdict.

exit 0  the property held on everything explored
exit 1  VIOLATION: a solver counterexample (or a path witness) failed on the real code
exit 2  no verdict (unreproduced counterexample, nothing decided, engine error)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("QUOCS_EVIDENCE", os.path.join(ROOT, "evidence"))
PY = sys.executable
NPROC = int(os.environ.get("SYMEX_PROCS", "8"))


def load(check_id):
    return importlib.import_module("checks." + check_id.lower())


# ------------------------------------------------------------------ symbolic workers
def _worker(check_id, tasks, results, deadline):
    import resource
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    from . import engine, loader
    mod = load(check_id)
    loader.COV.start()
    n = 0
    while True:
        t = tasks.get()
        if t is None:
            break
        ci, cfg, prefixes, max_paths, want = t
        n += 1
        try:
            eng = engine.Engine(mod.HARNESS[cfg["h"]], cfg, deadline)
            left = eng.explore(prefixes, max_paths, want, time.time() + cfg.get("chunk_s", 4.0))
            r = eng.result()
            results.put((ci, left, r, sorted(loader.COV.seen)))
        except BaseException:
            results.put((ci, [], {"crash": traceback.format_exc()[-3000:]}, sorted(loader.COV.seen)))


def merge(a, b):
    for k, v in b["stats"].items():
        a["stats"][k] = a["stats"].get(k, 0) + v
    for lab, d in b["labels"].items():
        t = a["labels"].setdefault(lab, {})
        for k, v in d.items():
            t[k] = t.get(k, 0) + v
    for c in b["candidates"]:
        if sum(1 for x in a["candidates"] if x["label"] == c["label"]) < 6:
            a["candidates"].append(c)
    a["n_candidates"] += len(b["candidates"])
    a["inconclusive"] = (a["inconclusive"] + b["inconclusive"])[:30]
    a["n_inconclusive"] += b["n_inconclusive"]
    a["witnesses"] = (a["witnesses"] + b["witnesses"])
    for k, v in b["oom"].items():
        a["oom"][k] = a["oom"].get(k, 0) + v


def explore(check_id, cfgs, budget):
    from . import loader
    loader.world("sym")
    mod = load(check_id)
    if hasattr(mod, "preload"):
        mod.preload()
    ctxm = mp.get_context("fork")
    tasks, results = ctxm.Queue(), ctxm.Queue()
    t0 = time.time()
    deadline = t0 + budget
    procs = [ctxm.Process(target=_worker, args=(check_id, tasks, results, deadline), daemon=True)
             for _ in range(NPROC)]
    for p in procs:
        p.start()
    acc = [{"stats": {}, "labels": {}, "candidates": [], "inconclusive": [], "n_inconclusive": 0, "witnesses": [],
            "oom": {}, "n_candidates": 0, "left": 0, "chunks": 0, "wall": 0.0} for _ in cfgs]
    pend = []           # (cfg index, prefixes)
    outstanding = 0
    crashes = []
    functions = set()
    for i, c in enumerate(cfgs):
        pend.append((i, [[]]))
    pend.reverse()
    maxp = [c.get("max_paths", 100000) for c in cfgs]
    while (pend or outstanding):
        while pend and outstanding < NPROC + 2 and time.time() < deadline:
            # least explored configuration first, so that a long one does not starve the others
            best = min(range(len(pend)), key=lambda n: (acc[pend[n][0]]["chunks"], pend[n][0], -n))
            ci, pre = pend.pop(best)
            if acc[ci]["stats"].get("paths", 0) >= maxp[ci] or acc[ci]["n_candidates"] >= 12:
                acc[ci]["left"] += len(pre)
                continue
            first = acc[ci]["chunks"] == 0
            acc[ci]["chunks"] += 1
            tasks.put((ci, cfgs[ci], pre, 6 if first else cfgs[ci].get("chunk", 24), 2 if len(acc[ci]["witnesses"]) < 6 else 0))
            outstanding += 1
        if not outstanding:
            break
        try:
            ci, left, r, fn = results.get(timeout=1.0)
        except queue.Empty:
            if time.time() > deadline + 25 or not any(p.is_alive() for p in procs):
                break
            if sum(p.is_alive() for p in procs) < len(procs) and time.time() > deadline:
                break
            dead = [p for p in procs if not p.is_alive()]
            if dead and len(dead) >= outstanding:
                break
            continue
        outstanding -= 1
        functions.update(fn)
        if "crash" in r:
            crashes.append({"cfg": cfgs[ci]["name"], "trace": r["crash"]})
            continue
        merge(acc[ci], r)
        if left:
            k = max(1, (len(left) + 3) // 4) if len(left) > 4 else 1
            for j in range(0, len(left), k):
                pend.append((ci, left[j:j + k]))
    for ci, pre in pend:
        acc[ci]["left"] += len(pre)
    stuck = outstanding
    for _ in procs:
        tasks.put(None)
    time.sleep(0.05)
    for p in procs:
        if p.is_alive():
            p.join(timeout=0.3)
        if p.is_alive():
            p.kill()
    return acc, crashes, functions, stuck


# ------------------------------------------------------------------ replays on the real code
def replay_main(path_in, path_out):
    """(subprocess) concrete runs of the harness on the real code"""
    sys.setrecursionlimit(20000)
    with open(path_in) as f:
        jobs = json.load(f)
    from . import engine, loader
    loader.world("conc")
    mod = load(jobs["check"])
    out = []
    for j in jobs["jobs"]:
        try:
            r = engine.run_concrete(mod.HARNESS[j["cfg"]["h"]], j["cfg"], j["values"])
        except BaseException:
            r = {"labels": [], "violations": [], "error": "crash " + traceback.format_exc()[-1500:], "missing": 0}
        out.append(r)
        with open(path_out + ".tmp", "w") as f:
            json.dump(out, f)
        os.replace(path_out + ".tmp", path_out)


def replay(check_id, jobs, timeout=120):
    """jobs: [{cfg, values}] -> list of results (None where the subprocess did not answer)"""
    if not jobs:
        return []
    d = os.path.join(EVID, "tmp")
    os.makedirs(d, exist_ok=True)
    n = min(NPROC, max(1, len(jobs) // 4))
    parts = [jobs[i::n] for i in range(n)]
    ps = []
    for i, part in enumerate(parts):
        a = os.path.join(d, "%s.%d.%d.in.json" % (check_id, os.getpid(), i))
        b = a.replace(".in.", ".out.")
        with open(a, "w") as f:
            json.dump({"check": check_id, "jobs": part}, f)
        p = subprocess.Popen([PY, "-c", "import sys; sys.path.insert(0, %r); from symex import runner; "
                              "runner.replay_main(%r, %r)" % (ROOT, a, b)], cwd=ROOT, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, env=dict(os.environ, JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1"))
        ps.append((p, a, b, part))
    out = [None] * len(jobs)
    end = time.time() + timeout
    for i, (p, a, b, part) in enumerate(ps):
        try:
            err = p.communicate(timeout=max(1.0, end - time.time()))[1]
        except subprocess.TimeoutExpired:
            p.kill()
            err = b"timeout"
        r = []
        if os.path.exists(b):
            with open(b) as f:
                r = json.load(f)
        elif err:
            sys.stderr.write(err.decode(errors="replace")[-2000:] + "\n")
        for k, x in enumerate(r):
            out[i + k * n] = x
        for x in (a, b):
            if os.path.exists(x):
                os.remove(x)
    return out


# ------------------------------------------------------------------ main
def known_findings(check_id):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == check_id and k.get("status") != "fixed"]


def matches(k, cfg, label):
    return label == k["label"] and (k.get("config") in (None, cfg["name"]))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="regular expression on configuration names")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when anything stayed undecided (development)")
    a = ap.parse_args(argv)
    cid = a.check.upper()
    if a.replay:
        with open(a.replay) as f:
            j = json.load(f)
        r = replay(cid, [{"cfg": j["cfg"], "values": j["values"]}])[0]
        print(json.dumps(r, indent=1))
        bad = bool(r and r["violations"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (cid, a.replay))
        return 1 if bad else 0
    return run_check(cid, a.tier, a.only, a.v, a.strict)


def run_check(cid, tier, only=None, verbose=False, strict=False):
    t0 = time.time()
    tier = tier if tier in ("quick", "thorough") else "quick"
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    from . import loader
    try:
        loader.world("sym")
        mod = load(cid)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the harness does not load" % cid)
        return 2
    cfgs = mod.configs(tier)
    if only:
        import re
        cfgs = [c for c in cfgs if re.search(only, c["name"])]
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 700)
    acc, crashes, functions, stuck = explore(cid, cfgs, budget)
    t1 = time.time()

    # ---- replay candidates and sampled witnesses on the real code
    jobs, meta = [], []
    for i, c in enumerate(cfgs):
        for cand in acc[i]["candidates"]:
            for m in cand["models"] or [{}]:
                jobs.append({"cfg": c, "values": m})
                meta.append(("cand", i, cand))
        ws = acc[i]["witnesses"]
        lim = c.get("witnesses", 4 if tier == "quick" else 8)
        step = max(1, len(ws) // lim)
        for w in ws[::step][:lim] + [w for w in ws if w.get("cut")][:4]:
            jobs.append({"cfg": c, "values": w["values"]})
            meta.append(("wit", i, w))
    res = replay(cid, jobs, timeout=getattr(mod, "REPLAY_TIMEOUT", 240))
    t2 = time.time()

    kf = known_findings(cid)
    violations, known, unreproduced = [], {}, []
    validated = 0
    cand_state = {}
    for job, (kind, i, obj), r in zip(jobs, meta, res):
        c = cfgs[i]
        if kind == "cand":
            st = cand_state.setdefault(id(obj), {"cfg": c, "cand": obj, "hit": False, "why": []})
            if r is None:
                st["why"].append("no answer")
                continue
            if not r["violations"]:
                st["why"].append(r["error"] or "holds concretely")
                continue
            st["hit"] = True
        else:
            if r is None:
                continue
            if r["error"] is None or r["violations"]:
                validated += 1
        for v in r["violations"]:
            k = next((k for k in kf if matches(k, c, v["label"])), None)
            if k is not None:
                known.setdefault(k["id"], (k, c, v))
            else:
                violations.append({"cfg": c, "values": job["values"], "label": v["label"], "info": v["info"], "kind": kind})
    for st in cand_state.values():
        if not st["hit"]:
            unreproduced.append({"cfg": st["cfg"]["name"], "label": st["cand"]["label"], "info": st["cand"]["info"][:800],
                                 "models": st["cand"]["models"][:1], "why": st["why"][:3]})

    # ---- totals
    tot = {}
    labels = {}
    for i in range(len(cfgs)):
        for k, v in acc[i]["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for lab, d in acc[i]["labels"].items():
            t = labels.setdefault(lab, {})
            for k, v in d.items():
                t[k] = t.get(k, 0) + v
    problems = []
    if not only:
        for lab in getattr(mod, "EXPECT", []):
            d = labels.get(lab)
            if not d or d["checked"] == 0:
                problems.append("label %r never reached" % lab)
    for i, c in enumerate(cfgs):
        st = acc[i]["stats"]
        if st.get("paths", 0) == 0 and acc[i]["n_candidates"] == 0:
            problems.append("configuration %r: no path completed" % c["name"])
    if tot.get("queries", 0) == 0:
        problems.append("no solver query")
    for c in crashes:
        problems.append("engine crash in %s" % c["cfg"])
    wall = time.time() - t0
    incon = sum(x["n_inconclusive"] for x in acc)
    left = sum(x["left"] for x in acc)
    samples = []
    for i, c in enumerate(cfgs):
        for w in acc[i]["witnesses"][:1]:
            samples.append({"config": c["name"], "inputs": w["values"], "assertions": sorted(set(w["labels"]))[:12]})
    ev = {
        "property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "model_checking"), "wall_s": round(wall, 2),
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("forks", 0) + tot.get("paths", 0),
            "traces_validated_against_impl": validated,
            "samples": samples[:6],
            "rule": "state = one completed symbolic path (a set of inputs following the same branches of the real "
                    "code); transition = one path segment between solver-decided forks",
            "bounds": mod.BOUNDS, "outside": getattr(mod, "OUTSIDE", ""),
            "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
            "solver": "z3 " + _z3v(), "queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0.0), 2),
            "assertions": {k: labels[k] for k in sorted(labels)},
            "assertions_discharged_by_solver": sum(d.get("solver", 0) for d in labels.values()),
            "assertions_discharged_structurally": sum(d.get("structural", 0) for d in labels.values()),
            "paths_outside_model": tot.get("out_of_model", 0), "outside_model_reasons": _sum([x["oom"] for x in acc]),
            "paths_cut_by_assumptions": tot.get("assumed_away", 0),
            "inconclusive": incon, "inconclusive_detail": [y for x in acc for y in x["inconclusive"]][:10],
            "unexplored_prefixes": left, "stuck_workers": stuck,
            "configurations": [{"name": c["name"], "paths": acc[i]["stats"].get("paths", 0),
                                "queries": acc[i]["stats"].get("queries", 0), "left": acc[i]["left"],
                                "solver_s": round(acc[i]["stats"].get("solver_s", 0.0), 2),
                                "inconclusive": acc[i]["n_inconclusive"]} for i, c in enumerate(cfgs)],
            "counterexamples": len(violations), "unreproduced_counterexamples": unreproduced[:5],
            "known_findings": sorted(known), "problems": problems, "crashes": crashes[:3],
            "explore_s": round(t1 - t0, 2), "replay_s": round(t2 - t1, 2),
        }}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    cv = ev["coverage"]
    print("%s %s: %d configurations, %d paths, %d queries (%.1f s), %d assertions by solver, %d structural, %d witnesses "
          "replayed, %d inconclusive, %d unexplored, %.1f s" % (
              cid, tier, len(cfgs), cv["states"], cv["queries"], cv["solver_s"], cv["assertions_discharged_by_solver"],
              cv["assertions_discharged_structurally"], validated, incon, left, wall))
    if verbose:
        for c in cv["configurations"]:
            print("   ", c)
        for k in sorted(labels):
            print("   ", k, labels[k])
        print("    oom", cv["outside_model_reasons"], "assumed", cv["paths_cut_by_assumptions"])
        for x in cv["inconclusive_detail"][:5]:
            print("    INCON", x.get("label"), x.get("why"), x.get("trace", "")[-1200:])
        for x in crashes:
            print("    CRASH", x["cfg"], x["trace"])
    for k, (kk, c, v) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (cid, kk["what"]))
    if violations:
        seen = set()
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in violations:
            key = (v["label"], v["cfg"]["h"])
            if key in seen or len(seen) >= 5:
                continue
            p = os.path.join(rdir, "%s-%d.json" % (cid, len(seen)))
            seen.add(key)
            with open(p, "w") as f:
                json.dump({"property": cid, **v}, f, indent=1)
            print("  %s [%s] %s" % (v["label"], v["cfg"]["name"], (v["info"] or "")[:1500]))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        return 1
    for u in unreproduced[:4]:
        print("INCONCLUSIVE property=%s unreproduced counterexample %s" % (cid, json.dumps(u)[:3000]))
    for p in problems[:10]:
        print("INCONCLUSIVE property=%s %s" % (cid, p))
    if problems or incon:
        for x in cv["inconclusive_detail"][:3]:
            print("   inconclusive:", x.get("label"), x.get("why"), x.get("trace", "")[-600:])
        for x in crashes[:2]:
            print("   ", x["trace"])
    nothing = tot.get("paths", 0) == 0 or tot.get("queries", 0) == 0 or len(crashes) >= len(cfgs)
    if nothing or (strict and (unreproduced or problems or incon or left)):
        return 2
    return 0


def _sum(ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r


def _z3v():
    from .z3path import z3
    return z3.get_version_string()
