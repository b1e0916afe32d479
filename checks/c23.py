"""C23 a run that is ended early ends in order"""
from .alg import *
from .c12 import driver, one_of_best

BOUNDS = ("dCRAB (1-2 super-iterations) and DirectSearch with Nelder-Mead, CMA-ES and a search with arbitrary points, GRAPE, AD; both directions; the "
          "run is ended by the user, by ctrl + c or by an error code at any evaluation (symbolic index) or before the first one; figures of merit "
          "symbolic, at most 6 evaluations; "
          "long runs of 14 (thorough: 30) evaluations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "exceptions raised by the user's evaluation, ties between figures of merit"
EXPECT = ["no-evaluation-after", "result-fom", "result-controls", "saved", "finished", "stopped-by-user"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "dim": 2, "si": 1, "dsm": "NelderMead", "kind": None, "n": 5, "pars": 0}, **k))
    for e in ("user", "sigint", "error", "error-none"):
        add("dcrab-nm-" + e, alg="dCRAB", end=e, n=5, dim=1)
        add("dcrab-nm2-" + e, alg="dCRAB", end=e, n=6, dim=1, si=2, max_eval=3, dir="maximization" if e in ("error", "sigint") else None)
        add("dcrab-cma-" + e, alg="dCRAB", end=e, n=5, dim=1, dsm="CMAES")
        add("dcrab-points-" + e, alg="dCRAB", end=e, n=4, dim=3, si=2, dsm="points", pars=1)
        add("direct-nm-" + e, alg="DirectSearch", end=e, n=5, dim=2)
        add("direct-cma-" + e, alg="DirectSearch", end=e, n=5, dim=1, dsm="CMAES", dir="maximization" if e == "user" else None)
        add("direct-points-" + e, alg="DirectSearch", end=e, n=4, dim=2, dsm="points", dir="maximization" if e == "error-none" else None)
        add("grape-" + e, alg="GRAPE", end=e, n=4, dir="maximization" if e == "error" else None)
        add("ad-" + e, alg="AD", end=e, n=4, dim=3, pars=1)
        add("ad-2si-" + e, alg="AD", end=e, n=4, si=2, dir="maximization" if e == "error-none" else None)
    m = 14 if not th else 30
    for i, e in enumerate(("user", "sigint", "error", "error-none")):
        # long runs: the order of the figures of merit is given
        add("long-dcrab-" + e, alg="dCRAB", end=e, n=m, dim=2, kind="Fourier", si=3, max_eval=m // 3, long=i)
        add("long-direct-" + e, alg="DirectSearch", end=e, n=m, dim=3, long=i + 1)
        add("long-cma-" + e, alg="DirectSearch" if i % 2 else "dCRAB", end=e, n=m, dim=2, dsm="CMAES", long=i + 2)
        add("long-grape-" + e, alg="GRAPE", end=e, n=m, long=i + 3)
        add("long-ad-" + e, alg="AD", end=e, n=m, si=2, long=i)
    if th:
        for e in ("user", "sigint", "error", "error-none"):
            add("dcrab-nm3-" + e, alg="dCRAB", end=e, n=9, dim=1, si=3, max_eval=3)
            add("direct-nm7-" + e, alg="DirectSearch", end=e, n=7, dim=2)
            add("dcrab-fourier-" + e, alg="dCRAB", end=e, n=6, dim=2, kind="Fourier", si=2, max_eval=3)
    return r


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375, 0.75, 0.5625])
    alg, n, end = cfg["alg"], cfg["n"], cfg["end"]
    sgn = -1 if cfg.get("dir") == "maximization" else 1
    kw = {}
    if alg in ("dCRAB", "DirectSearch"):
        kw["general"] = {"population": 4}
        kw["stop"] = {"max_eval": cfg.get("max_eval", 100)}
        kw["dsm"] = "NelderMead" if cfg["dsm"] == "points" else cfg["dsm"]
    if alg in ("dCRAB", "AD"):
        kw["super_iteration_number"] = cfg["si"]
    before = end in ("user", "sigint") and ctx.branch(ctx_b(ctx.bool("before")))
    at = ctx.int("at", 0, n) if not before else -1      # at == n: the run ends by itself
    d = small(alg, cfg["dim"], kind=cfg["kind"], pars=cfg["pars"], direction=cfg.get("dir"), max_eval_total=n, **kw)
    code = ctx.int("code", -3, 4) if end.startswith("error") else 0
    if end.startswith("error"):
        ctx.assume(ctx.Not(code == 0) if ctx.symbolic else code != 0)

    def stop():
        if end == "sigint":
            env.sigint(2, None)
        else:
            run_.opt.communication_obj.he_obj.set_is_user_running(False)

    def hook(k, c, r):
        if not before and ctx.branch(ctx_b(at == k)):
            c["last"] = True
            if end.startswith("error"):
                r["status_code"] = code
                c["bad"] = True
                if end == "error-none":
                    r["FoM"] = None
            else:
                stop()
    f = FoM(ctx, hook=hook, value=in_order(ctx, cfg["long"]) if "long" in cfg else None, cap=n + 2)
    run_ = Run(ctx, d, f)
    per = n // cfg["si"]
    it = {"i": 0}

    def points(x0):
        r = []
        for _ in range(per):
            i = it["i"]
            # disjoint ranges: which evaluation some controls belong to is decidable
            r.append(reals(ctx, "pt%d_" % i, len(x0), -2 + 0.5 * i, -1.75 + 0.5 * i))
            it["i"] += 1
        return r
    if alg in ("GRAPE", "AD"):
        env.minimize = fun_minimize(ctx, points)
    if cfg["dsm"] == "points":
        run_.alg.dsm_obj.run_dsm = driver(ctx, points)
    if before:
        stop()
    run_.go()
    calls = f.calls
    last = [i for i, c in enumerate(calls) if c.get("last")]
    if before:
        ctx.check(len(calls) == 0, "no-evaluation-after", "%d evaluations after the stop" % len(calls))
    elif last:
        ctx.check(last[0] == len(calls) - 1, "no-evaluation-after", "%d evaluations, stop at %d" % (len(calls), last[0]))
    good = [c for c in calls if not c.get("bad")]
    fin = run_.final()
    ctx.check(fin is not None, "finished")
    if (last or before) and end == "sigint" and len(calls) < n:      # else the budget is a reason too
        ctx.check(any("User stopped" in str(m) for m in env.logged), "stopped-by-user")
    best = run_.best()
    s = run_.saved_best()
    if not good:
        ctx.check(s is None, "saved", "nothing was measured")
        return
    b = good[0]["FoM"]
    for c in good[1:]:
        b = ctx.max(b, c["FoM"]) if sgn < 0 else ctx.min(b, c["FoM"])
    ctx.check(ctx.close(fin["Figure of merit"], b), "result-fom")
    one_of_best(ctx, best["pulses"] + best["parameters"], good, sgn, "result-controls")
    ctx.check(s is not None, "saved")
    if s is not None:
        ctx.check(ctx.close(re_(cells(s["FoM"])[0]), b), "saved")
        names = [p["pulse_name"] for p in d["pulses"]] + [p["parameter_name"] for p in d["parameters"]]
        one_of_best(ctx, [re_(x) for nm in names for x in cells(s[nm])], good, sgn, "saved")


HARNESS = {"run": run}
