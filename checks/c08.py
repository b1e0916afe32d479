"""C08 maximising f is minimising -f"""
from .alg import *

BOUNDS = ("dCRAB (1-2 super-iterations), DirectSearch, GRAPE, AD with Nelder-Mead, adaptive Nelder-Mead or CMA-ES, 2 search directions, "
          "4-6 evaluations; every figure of merit, standard deviation and the goal symbolic; with and without re-evaluation and drift "
          "compensation; "
          "long runs of 20 (thorough: 40) evaluations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "more than 6 evaluations in every order of the figures of merit; the sign used in log messages and in the plot signal"
EXPECT = ["same-requests", "same-length", "result-negated", "history-negated", "saved-negated", "saved-same-controls", "best-controls",
          "same-reason"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "dim": 2, "si": 1, "dsm": "NelderMead", "kind": None, "n": 5, "fmt": "npz"}, **k))
    add("dcrab-nm", alg="dCRAB", n=6 if not th else 7)
    add("dcrab-fourier", alg="dCRAB", kind="Fourier", n=5 if not th else 6, fmt="json")
    add("dcrab-2si", alg="dCRAB", kind="Fourier", n=6, si=2, max_eval=4)
    add("dcrab-cma", alg="dCRAB", n=5, dsm="CMAES")
    add("dcrab-adaptive", alg="dCRAB", n=6, general={"is_adaptive": True})
    add("dcrab-goal", alg="dCRAB", n=5, goal=True)
    add("dcrab-reeval", alg="dCRAB", n=4, re=[0.33, 0.5])
    add("dcrab-reeval-deep", alg="dCRAB", n=3, re=[0.25, 0.5, 0.51])
    add("dcrab-drift", alg="dCRAB", n=6, drift=True, dim=1)
    add("dcrab-drift-si", alg="dCRAB", n=5, si=2, max_eval=2, drift_si=True, dim=1)
    add("direct-nm", alg="DirectSearch", n=6 if not th else 7, fmt="json")
    add("direct-cma", alg="DirectSearch", n=5, dsm="CMAES")
    add("direct-goal", alg="DirectSearch", n=5, goal=True)
    add("direct-reeval", alg="DirectSearch", n=4, re=[0.33, 0.5])
    add("direct-drift", alg="DirectSearch", n=6, drift=True, dim=1)
    add("grape", alg="GRAPE", n=5, goal=True)
    add("ad", alg="AD", n=4, goal=True, fmt="json")
    for nm, k in (("", {}), ("-fourier", {"kind": "Fourier"}), ("-par", {"pars": 1, "dim": 3})):
        r.append(dict({"name": "ad-gradient" + nm, "h": "gradient", "dim": 2, "kind": None, "pars": 0}, **k))
    # long runs: the order of the figures of merit is given
    m = 1 if not th else 2
    add("long-dcrab", alg="dCRAB", kind="Fourier", n=20 * m, si=4, max_eval=6 * m, long=1)
    add("long-dcrab-cma", alg="dCRAB", n=20 * m, dsm="CMAES", long=2, dim=3, si=2, max_eval=12 * m)
    add("long-direct", alg="DirectSearch", n=20 * m, long=3, dim=4)
    add("long-direct-cma", alg="DirectSearch", n=20 * m, long=4, dim=3, dsm="CMAES")
    add("long-grape", alg="GRAPE", n=14 * m, long=1)
    add("long-ad", alg="AD", n=12 * m, long=2)
    add("tight-stop", alg="dCRAB", n=7, stop={"fatol": 1.5, "xatol": 100.0}, dim=1)
    return r


def once(ctx, cfg, direction, vals, std, goal, pts):
    env = loader.new_env(ctx) if direction == "maximization" else ENV()
    prepare(ctx, env, cfg)
    sgn = -1 if direction == "maximization" else 1
    kw = {}
    if cfg["alg"] in ("dCRAB", "DirectSearch"):
        kw["general"] = dict({"population": 4}, **cfg.get("general", {}))
        kw["stop"] = dict({"max_eval": cfg.get("max_eval", 100)}, **cfg.get("stop", {}))
        kw["dsm"] = cfg["dsm"]
        if "re" in cfg:
            kw["re_evaluation"] = {"re_evaluation_steps": cfg["re"]}
    if cfg["alg"] == "dCRAB":
        kw["super_iteration_number"] = cfg["si"]
    if cfg.get("drift"):
        kw["compensate_drift"] = {"compensate_after_minutes": 2.5, "num_average": 2}
    if cfg.get("drift_si"):
        kw["compensate_drift"] = {"compensate_after_SI": True, "num_average": 2}
    if goal is not None:
        kw["FoM_goal"] = sgn * goal
    d = small(cfg["alg"], cfg["dim"], kind=cfg["kind"], direction=direction, fmt=cfg["fmt"], max_eval_total=cfg["n"],
              seed=11 if cfg["alg"] != "DirectSearch" else None, **kw)
    cap = 2 * cfg["n"] + 2

    def hook(k, c, r):
        if cfg.get("drift"):
            env.clock = env.clock + 60
    f = FoM(ctx, value=lambda k, c: sgn * vals[k], cap=cap, std=std, hook=hook)
    run_ = Run(ctx, d, f)
    if cfg["alg"] in ("GRAPE", "AD"):
        env.minimize = fun_minimize(ctx, lambda x0: [x0] + pts)
    run_.go()
    return run_, f, d


def prepare(ctx, env, cfg):
    const_draws(env, [0.3125, -0.625, 0.875, 0.125, -0.4375, 0.75, 0.5625])


def run(ctx, cfg):
    setup(ctx)
    value = in_order(ctx, cfg["long"]) if "long" in cfg else lambda i: ctx.real("f%d" % i, -100, 100)
    vals = [value(i) for i in range(2 * cfg["n"] + 2)]
    stds = [ctx.real("s%d" % i, 0.01, 5) if "re" in cfg else 0.25 for i in range(len(vals))]
    std = (lambda k: stds[k]) if "re" in cfg else None
    goal = ctx.real("goal", -100, 100) if cfg.get("goal") else None
    npar = cfg["dim"]
    pts = [reals(ctx, "pt%d_" % i, npar, -3, 3) for i in range(cfg["n"] - 1)] if cfg["alg"] in ("GRAPE", "AD") else []
    a, fa, d = once(ctx, cfg, "minimization", vals, std, goal, pts)
    b, fb, _ = once(ctx, cfg, "maximization", vals, std, goal, pts)
    ctx.check(len(fa.calls) == len(fb.calls), "same-length")
    for x, y in zip(fa.calls, fb.calls):
        u, v = flat(x), flat(y)
        ctx.check(len(u) == len(v), "same-requests")
        eq(ctx, u, v, "same-requests", 1e-9)
    eq(ctx, [a.final()["Figure of merit"]], [-b.final()["Figure of merit"]], "result-negated", 1e-12)
    eq(ctx, a.alg.FoM_list, [-v for v in b.alg.FoM_list], "history-negated", 1e-12)
    ctx.check(a.final().get("terminate_reason") == b.final().get("terminate_reason") and
              a.alg.higher_order_terminate_reason == b.alg.higher_order_terminate_reason, "same-reason")
    sa, sb = a.saved_best(), b.saved_best()
    ctx.check((sa is None) == (sb is None), "saved-negated")
    if sa is not None and sb is not None:
        ctx.check(set(sa) == set(sb), "saved-same-controls")
        for k in sa:
            if k == "FoM":
                eq(ctx, [re_(v) for v in cells(sa[k])], [-re_(v) for v in cells(sb[k])], "saved-negated", 1e-12)
            elif k in [p["pulse_name"] for p in d["pulses"]] + [p["parameter_name"] for p in d["parameters"]]:
                eq(ctx, [re_(v) for v in deep(sa[k])], [re_(v) for v in deep(sb[k])], "saved-same-controls", 1e-9)
    if cfg["alg"] != "DirectSearch":
        x, y = a.best(), b.best()
        for k in ("pulses", "parameters"):
            eq(ctx, x[k], y[k], "best-controls", 1e-9)


def gradient(ctx, cfg):
    """what scipy's optimiser is told (value and derivative) is the same in both directions"""
    setup(ctx)
    n = cfg["dim"] if cfg["kind"] is None else 3
    lin, quad = reals(ctx, "l", n, -2, 2), reals(ctx, "q", n, -2, 2) if cfg["kind"] is None else [0.0] * n
    pts = [reals(ctx, "x%d_" % i, cfg["dim"], -1, 1) for i in range(2)]
    res = []
    for sgn, direction in ((1, "minimization"), (-1, "maximization")):
        env = setup(ctx)
        prepare(ctx, env, cfg)
        d = small("AD", cfg["dim"], kind=cfg["kind"], pars=cfg["pars"], direction=direction, seed=11, super_iteration_number=1)
        f = QuadFoM(ctx, lin, quad, 0.5, sgn)
        grad_model(ctx, env, f)
        run_ = Run(ctx, d, f)
        got = []
        env.minimize = capture_minimize(ctx, got, lambda x0: pts, True)
        run_.go()
        res.append(got)
    a, b = res
    ctx.check(len(a) == len(b) == 1, "same-requests")
    eq(ctx, a[0]["x0"], b[0]["x0"], "same-requests", 1e-9)
    for u, v in zip(a[0]["at"], b[0]["at"]):
        eq(ctx, [re_(x) for x in cells(u["f"])], [re_(x) for x in cells(v["f"])], "same-requests", 1e-3)
        eq(ctx, [re_(x) for x in u["g"]], [re_(x) for x in v["g"]], "same-requests", 1e-3)


def deep(v):
    r = []
    for x in cells(v):
        r += deep(x) if isinstance(x, (list, tuple)) else [x]
    return r


HARNESS = {"run": run, "gradient": gradient}
