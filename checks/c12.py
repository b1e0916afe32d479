"""C12 the best controls handed back are the controls of the best evaluation, and super-iterations build on them"""
import math

from .alg import *

BOUNDS = ("dCRAB with 1-3 super-iterations, DirectSearch, GRAPE, AD with 1-2 super-iterations; Nelder-Mead, CMA-ES and a search that "
          "proposes arbitrary symbolic points; 1-2 pulses (piecewise, Fourier, mixed; clipped, shrunk, scaled, with guess) and 0-2 "
          "parameters; all figures of merit symbolic, at most 8 evaluations; runs that"
          " end by themselves, by budget, goal, time limit or the user; "
          "long runs of 24 (thorough: 48) evaluations with up to 6 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "ties between figures of merit, drift compensation and re-evaluation (C19, C20), long runs in every order of the figures of merit"
EXPECT = ["best-controls", "starts-from-best", "result-parameters", "result-lists"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "dim": 2, "si": 1, "dsm": "NelderMead", "kind": None, "n": 5, "pars": 0}, **k))
    add("dcrab-nm", alg="dCRAB", n=5)
    add("dcrab-nm-par", alg="dCRAB", n=5, pars=1)
    add("dcrab-fourier-par", alg="dCRAB", n=5, kind="Fourier", dim=3)
    add("dcrab-cma", alg="dCRAB", n=5, dsm="CMAES", pars=1)
    add("dcrab-2si", alg="dCRAB", n=6, si=2, max_eval=3, dim=1)
    add("dcrab-2si-par", alg="dCRAB", n=6 if not th else 7, si=2, max_eval=3, dim=2, pars=1, sorted=True)
    add("dcrab-3si", alg="dCRAB", n=7, si=3, max_eval=2, dim=1)
    add("dcrab-2si-max", alg="dCRAB", n=6, si=2, max_eval=3, dim=1, dir="maximization")
    add("dcrab-2si-overwrite", alg="dCRAB", n=6, si=1, max_eval=3, dim=1, pulse={"overwrite_base_pulse": True})
    add("dcrab-2si-cma", alg="dCRAB", n=8, si=2, max_eval=4, dim=1, dsm="CMAES", sorted=True)
    add("dcrab-2si-cma-2gen", alg="dCRAB", n=9, si=2, max_eval=8, dim=1, dsm="CMAES", shape=True)
    add("points-4si", alg="dCRAB", n=8, si=4, dim=1, dsm="points")
    for nm, pk in (("clip", {"lower_limit": -0.6, "upper_limit": 0.5}), ("shrink", {"lower_limit": -0.6, "upper_limit": 0.5, "shrink_ampl_lim": True}),
                   ("guess", {"initial_guess": lamf("lambda t: 0.25 + 0.125*t"), "scaling_function": lamf("lambda t: 1.0 - 0.25*t")})):
        add("points-" + nm, alg="dCRAB", n=3, dim=2, dsm="points", pulse=pk)
        add("points-2si-" + nm, alg="dCRAB", n=4, si=2, dim=2, dsm="points", pulse=pk)
    add("points-par", alg="dCRAB", n=4, si=2, dim=3, pars=2, dsm="points")
    add("points-fourier", alg="dCRAB", n=4, si=2, dim=3, kind="Fourier", dsm="points")
    add("points-two-pulses", alg="dCRAB", n=4, si=2, dim=3, two=True, pars=1, dsm="points")
    add("direct-nm", alg="DirectSearch", n=6)
    add("direct-cma", alg="DirectSearch", n=5, dsm="CMAES")
    add("direct-points", alg="DirectSearch", n=4, dim=2, dsm="points")
    add("direct-max", alg="DirectSearch", n=5, dir="maximization")
    add("grape", alg="GRAPE", n=4)
    add("grape-clip", alg="GRAPE", n=4, pulse={"lower_limit": -0.6, "upper_limit": 0.5})
    add("ad", alg="AD", n=4)
    add("ad-par", alg="AD", n=4, dim=3, pars=1)
    add("ad-2si", alg="AD", n=4, si=2)
    add("ad-2si-par", alg="AD", n=4, si=2, dim=3, pars=1)
    add("ad-fourier", alg="AD", n=4, si=2, kind="Fourier")
    for e in ("goal", "time", "user"):
        add("end-%s-dcrab" % e, alg="dCRAB", n=4, si=2, dim=2, dsm="points", end=e)
        add("end-%s-dcrab-nm" % e, alg="dCRAB", n=4, dim=2, kind="Fourier", end=e)
        add("end-%s-dcrab-cma" % e, alg="dCRAB", n=4, dim=2, dsm="CMAES", end=e)
        add("end-%s-direct" % e, alg="DirectSearch", n=4, dim=1, dsm="points", end=e)
        add("end-%s-grape" % e, alg="GRAPE", n=4, end=e)
        add("end-%s-ad" % e, alg="AD", n=4, si=2, end=e)
    # long runs: the order of the figures of merit is given
    m = 1 if not th else 2
    for s in (1, 2) if not th else (1, 2, 3, 4, 5):
        add("long-dcrab-%d" % s, alg="dCRAB", n=24 * m, si=6, max_eval=5 * m, kind="Fourier", dim=3, long=s, dir="maximization" if s % 2 else None)
        add("long-piecewise-%d" % s, alg="dCRAB", n=24 * m, si=4, max_eval=7 * m, dim=4, pars=2, long=s + 1)
        add("long-cma-%d" % s, alg="dCRAB", n=24 * m, si=3, max_eval=8 * m, dim=2, dsm="CMAES", long=s + 2)
        add("long-direct-%d" % s, alg="DirectSearch", n=20 * m, dim=4, long=s + 3)
        add("long-points-%d" % s, alg="dCRAB", n=20 * m, si=5, dim=3, pars=1, dsm="points", long=s)
        add("long-grape-%d" % s, alg="GRAPE", n=12 * m, long=s)
        add("long-ad-%d" % s, alg="AD", n=12 * m, si=4, dim=3, pars=1, long=s)
    for si in (1, 2, 3):
        add("lists-%dsi" % si, h="lists", alg="dCRAB", n=2 * si if si < 3 or th else 5, si=si, dim=2, kind="Fourier", dsm="points")
    add("lists-two", h="lists", alg="dCRAB", n=4, si=2, dim=4, kind="Fourier", two=True, pars=1, dsm="points")
    add("lists-stop", h="lists", alg="dCRAB", n=5, si=4, dim=2, kind="Fourier", dsm="points", end="budget")
    return r


def lists(ctx, cfg):
    """the coefficients and frequencies reported for the super-iterations add up to the best pulses"""
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375, 0.75, 0.5625])
    n, si = cfg["n"], cfg["si"]
    d = small("dCRAB", cfg["dim"], kind="Fourier", pars=cfg["pars"], max_eval_total=3 if cfg.get("end") else 100, super_iteration_number=si)
    if cfg.get("two"):
        d["pulses"].append(pulse_dict("B", "Fourier", bins=4, time_name="t", lower=-9.0, upper=9.0, var=0.25, nv=1))
        d["parameters"] = [par_dict("q0", 0.25, -4.0, 4.0, 0.5)]
    f = FoM(ctx)
    run_ = Run(ctx, d, f)
    it = {"i": 0, "si": 0}

    def points(x0):
        it["si"] += 1
        k = n // si + (it["si"] <= n % si)
        r = []
        for _ in range(k):
            r.append(reals(ctx, "pt%d_" % it["i"], len(x0), -1, 1))
            it["i"] += 1
        return r
    run_.alg.dsm_obj.run_dsm = driver(ctx, points)
    run_.go()
    fin = run_.alg._get_final_results()
    co, fr = fin["dcrab_para_list"], fin["dcrab_freq_list"]
    ctx.check(len(co) == it["si"] and len(fr) == it["si"], "result-lists", "%d entries for %d super-iterations" % (len(co), it["si"]))
    best = run_.best()
    got = best["pulses"]
    want = []
    for j, bins in enumerate([3, 4] if cfg.get("two") else [3]):
        ts = best["timegrids"][3 * j:3 * j + bins]
        for t in ts:
            v = 0.0
            for a, w in zip(co, fr):
                a = list(cells(a))
                ph = 2 * math.pi * float(re_(w[j][0])) * float(re_(t)) / 2.0
                v = v + re_(a[2 * j]) * math.sin(ph) + re_(a[2 * j + 1]) * math.cos(ph)
            want.append(v)
    ctx.check(ctx.allclose(got, want, 1e-6), "result-lists", "the parts add up")
    if cfg["pars"]:
        ctx.check(ctx.close(best["parameters"][0], re_(list(cells(co[-1]))[-1]), 1e-6), "result-lists", "parameter")


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375, 0.75, 0.5625])
    alg, n = cfg["alg"], cfg["n"]
    sgn = -1 if cfg.get("dir") == "maximization" else 1
    kw = {}
    if alg in ("dCRAB", "DirectSearch"):
        kw["general"] = {"population": 4}
        kw["stop"] = {"max_eval": cfg.get("max_eval", 100)}
        kw["dsm"] = "NelderMead" if cfg["dsm"] == "points" else cfg["dsm"]
    if alg in ("dCRAB", "AD"):
        kw["super_iteration_number"] = cfg["si"]
    end = cfg.get("end")
    if end == "goal":
        kw["FoM_goal"] = ctx.real("goal", -100, 100)
    if end == "time":
        kw["total_time_lim"] = ctx.real("minutes", 0.01, 5000)
    stop_at = ctx.int("stop_at", 0, n) if end == "user" else None
    d = small(alg, cfg["dim"], kind=cfg["kind"], pars=cfg["pars"], direction=cfg.get("dir"), max_eval_total=n, **kw)
    if cfg.get("two"):
        d["pulses"] = [pulse_dict("A", "PiecewiseBasis", bins=2, time_name="t", lower=-1.0, upper=1.5, var=0.5),
                       pulse_dict("B", "Fourier", bins=3, time_name="t", lower=-2.0, upper=1.0, var=0.5, nv=1)]
    for p in d["pulses"]:
        p.update(copy.deepcopy(cfg.get("pulse", {})))
    begin = {}

    def value(k, c):
        if "long" in cfg:
            return in_order(ctx, cfg["long"])(k)
        v = ctx.real("f%d" % k, -100, 100)
        if cfg.get("sorted") and k in (1, 2, 5):
            ctx.assume(sgn * v <= sgn * f.calls[k - 1]["FoM"] - 1e-3)
        if cfg.get("shape") and 0 < k < 8 and k != 4:
            # two generations: the best of the first one is the third (or beaten by the first of the second one)
            ctx.assume(v <= f.calls[k - 1]["FoM"] - 1e-3 if k in (1, 2) else v >= f.calls[k - 1]["FoM"] + 1e-3)
        return v

    def hook(k, c, r):
        if end == "time":
            env.clock = env.clock + ctx.real("dt%d" % k, 0, 200000)
        if stop_at is not None and ctx.branch(ctx_b(stop_at == k)):
            run_.opt.communication_obj.he_obj.set_is_user_running(False)
        s = run_.alg.super_it if alg in ("dCRAB", "AD") else 1
        if s not in begin:
            begin[s] = k
            if s > 1 and alg == "dCRAB":
                # the search of this super-iteration starts from the best controls so far
                one_of_best(ctx, flat(c), f.calls[:-1], sgn, "starts-from-best")
    f = FoM(ctx, hook=hook, value=value, cap=n + 2)
    run_ = Run(ctx, d, f)
    per = n // cfg["si"]
    it = {"i": 0}

    def points(x0):
        r = []
        for _ in range(per):
            r.append(reals(ctx, "pt%d_" % it["i"], len(x0), -2, 2))
            it["i"] += 1
        return r
    if alg in ("GRAPE", "AD"):
        env.minimize = fun_minimize(ctx, points)
    if cfg["dsm"] == "points":
        run_.alg.dsm_obj.run_dsm = driver(ctx, points)
    run_.go()
    best = run_.best()
    one_of_best(ctx, best["pulses"] + best["parameters"], f.calls, sgn, "best-controls")
    if alg == "DirectSearch":
        one_of_best(ctx, [re_(v) for v in cells(run_.final()["parameters"])], f.calls, sgn, "result-parameters")
    else:
        ctx.check(len(best["timegrids"]) > 0, "result-parameters")


def driver(ctx, points):
    """a direct search that asks for arbitrary points; its start point comes first"""
    def run_dsm(func, x0, **kw):
        pts = [list(cells(x0))] + points(list(cells(x0)))[1:]
        b = None
        for i, p in enumerate(pts):
            v = func(arr(ctx, p), i)
            b = (v, p) if b is None else b
        return {"F_min_val": b[0], "X_opti_vec": arr(ctx, b[1]), "NitUsed": 1, "NfunevalsUsed": len(pts), "terminate_reason": "done"}
    return run_dsm


def one_of_best(ctx, got, calls, sgn, label):
    alts = []
    for c in calls:
        w = flat(c)
        if len(w) == len(got):
            alts.append(ctx.And(ctx.allclose(got, w, 1e-4), *[sgn * c["FoM"] <= sgn * o["FoM"] for o in calls if o is not c]))
    # ties: any of the best
    ctx.check(ctx.Or(*alts) if alts else False, label)


HARNESS = {"run": run, "lists": lists}
