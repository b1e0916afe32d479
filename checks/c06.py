"""C06 the best record is the best evaluation"""
from .alg import *

BOUNDS = ("dCRAB (1-2 super-iterations), DirectSearch, GRAPE and AD, Nelder-Mead and CMA-ES, 1-3 search directions, at most 4-7 "
          "evaluations per run; every figure of merit a symbolic real in [-1e9, 1e9], minimisation and maximisation, npz and json files; "
          "search points of GRAPE/AD symbolic; "
          "long runs of 24 (thorough: 48) evaluations and up to 6 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "figures of merit of 1e10 and beyond and NaN, long runs in every order of the figures of merit, drift compensation (C20) and re-evaluation (C19)"
EXPECT = ["best-value", "history", "result-file", "file-is-best-so-far", "saved-controls", "numbering"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    r = []
    th = tier == "thorough"

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "dim": 2, "si": 1, "dir": "minimization", "fmt": "npz", "dsm": "NelderMead",
                       "kind": None, "n": 5}, **k))
    for dr in ("minimization", "maximization"):
        s = dr[:3]
        add("dcrab-nm-" + s, alg="dCRAB", kind="Fourier", n=6 if not th else 7, dir=dr)
        add("dcrab-nm-2si-" + s, alg="dCRAB", kind="Fourier", n=6 if not th else 7, si=2, max_eval=4, dir=dr,
            fmt="json" if s == "min" else "npz")
        add("dcrab-cma-" + s, alg="dCRAB", kind="Fourier", n=5, dsm="CMAES", dir=dr, pop=4)
        add("direct-nm-" + s, alg="DirectSearch", n=6 if not th else 7, dir=dr)
        add("direct-cma-" + s, alg="DirectSearch", n=5, dsm="CMAES", pop=4, dir=dr, fmt="json" if s == "max" else "npz")
        add("grape-" + s, alg="GRAPE", n=5, dir=dr)
        add("ad-" + s, alg="AD", n=4, dir=dr)
        add("ad-par-" + s, alg="AD", n=3, dim=3, pars=1, dir=dr)
    add("dcrab-piecewise-par", alg="dCRAB", dim=2, pars=1, n=6)
    add("dcrab-fourier-par", alg="dCRAB", dim=3, kind="Fourier", n=5)
    add("dcrab-one", alg="dCRAB", dim=1, n=6)
    add("direct-one", alg="DirectSearch", dim=1, n=6)
    add("direct-three", alg="DirectSearch", dim=3, n=5)
    add("grape-json", alg="GRAPE", n=4, fmt="json")
    add("dcrab-adaptive", alg="dCRAB", kind="Fourier", n=6, general={"is_adaptive": True}, dir="maximization")
    # long runs: the order of the figures of merit is given, their values are not
    m = 2 if th else 1
    for s in (1, 2) if not th else (1, 2, 3, 4):
        dr = "minimization" if s % 2 else "maximization"
        add("long-dcrab-%d" % s, alg="dCRAB", kind="Fourier", n=24 * m, si=5, max_eval=6 * m, dir=dr, long=s)
        add("long-direct-%d" % s, alg="DirectSearch", dim=4, n=24 * m, dir=dr, long=s, fmt="json")
        add("long-cma-%d" % s, alg="dCRAB", dim=3, n=24 * m, dsm="CMAES", pop=5, dir=dr, long=s, si=2, max_eval=14 * m)
        add("long-grape-%d" % s, alg="GRAPE", dim=2, n=16 * m, dir=dr, long=s)
        add("long-ad-%d" % s, alg="AD", n=14 * m, dir=dr, long=s)
    return r


def same_controls(ctx, got, c, names, fmt):
    """condition: the saved dictionary holds exactly the controls of evaluation c"""
    conds = []
    tol = 1e-4
    for nm, p, t in zip(names["pulses"], c["pulses"], c["timegrids"]):
        if nm not in got or "time_grid_for_" + nm not in got:
            return False
        a, b = [re_(v) for v in deep(got[nm])], [re_(v) for v in p]
        g, h = [re_(v) for v in deep(got["time_grid_for_" + nm])], [re_(v) for v in t]
        if len(a) != len(b) or len(g) != len(h):
            return False
        conds += [ctx.allclose(a, b, tol), ctx.allclose(g, h, tol)]
    for nm, v in zip(names["parameters"], c["parameters"]):
        if nm not in got:
            return False
        conds.append(ctx.allclose([re_(x) for x in deep(got[nm])], [re_(v)], tol))
    return ctx.And(*conds) if conds else True


def deep(v):
    r = []
    for x in cells(v):
        r += deep(x) if isinstance(x, (list, tuple)) else [x]
    return r


def is_best(ctx, got, calls, names, sgn, fmt):
    """Or over the evaluations: best value and these controls"""
    alts = []
    for c in calls:
        s = same_controls(ctx, got, c, names, fmt)
        if s is False:
            continue
        alts.append(ctx.And(s, *[sgn * c["FoM"] <= sgn * o["FoM"] for o in calls if o is not c]))
    return ctx.Or(*alts) if alts else False


def run(ctx, cfg):
    env = setup(ctx)
    n, sgn = cfg["n"], -1 if cfg["dir"] == "maximization" else 1
    kw = {}
    if cfg["alg"] in ("dCRAB", "DirectSearch"):
        kw["general"] = dict(cfg.get("general", {}))
        if "pop" in cfg:
            kw["general"]["population"] = cfg["pop"]
        kw["stop"] = {"max_eval": cfg.get("max_eval", 100)}
    if cfg["alg"] == "dCRAB":
        kw["super_iteration_number"] = cfg["si"]
    d = small(cfg["alg"], cfg["dim"], kind=cfg["kind"], pars=cfg.get("pars", 0), dsm=cfg["dsm"], direction=cfg["dir"], fmt=cfg["fmt"],
              max_eval_total=n, **kw)
    names = {"pulses": [p["pulse_name"] for p in d["pulses"]], "parameters": [p["parameter_name"] for p in d["parameters"]]}

    def hook(k, c, r):
        done = f.calls[:-1]
        if done:
            got = run_.saved_best()
            ctx.check(got is not None, "file-is-best-so-far")
            ctx.check(is_best(ctx, got, done, names, sgn, cfg["fmt"]), "file-is-best-so-far")
    f = FoM(ctx, -1e9, 1e9, hook=hook, value=in_order(ctx, cfg["long"]) if "long" in cfg else None, cap=n + 2)
    run_ = Run(ctx, d, f)
    if cfg["alg"] in ("GRAPE", "AD"):
        env.minimize = fun_minimize(ctx, lambda x0: [x0] + [reals(ctx, "pt%d_" % i, len(x0), -3, 3) for i in range(n - 1)])
    run_.go()
    vals = [c["FoM"] for c in f.calls]
    ctx.check(len(vals) >= 1, "numbering")
    best = run_.final()["Figure of merit"]
    ctx.check(ctx.And(ctx.Or(*[best == v for v in vals]), *[sgn * best <= sgn * v for v in vals]), "result-file")
    b = sgn * run_.alg.best_FoM
    ctx.check(ctx.And(ctx.Or(*[b == v for v in vals]), *[sgn * b <= sgn * v for v in vals]), "best-value")
    eq(ctx, run_.alg.FoM_list, vals, "history", 1e-12)
    ctx.check(list(run_.alg.iteration_number_list) == list(range(1, len(vals) + 1)), "numbering")
    ctx.check(run_.alg.iteration_number == len(vals), "numbering")
    got = run_.saved_best()
    ctx.check(is_best(ctx, got, f.calls, names, sgn, cfg["fmt"]), "saved-controls")


HARNESS = {"run": run}
