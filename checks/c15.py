"""C15 what a run leaves on disk is complete and attributed to the right control"""
from .alg import *

BOUNDS = ("one dCRAB run of 1-3 evaluations, DirectSearch, AD; up to 2 pulses and 2 parameters whose names are any of 7 (equal ones, "
          "ones that end in a number, ones that coincide with other entries of the file); npz and json; samples, final times, parameters "
          "and figures of merit symbolic in disjoint ranges; "
          "runs of 14 evaluations with up to 5 pulses and 12 parameters, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "the bytes of npz and json files, more than 4 controls with confusable names"
EXPECT = ["pulse", "time-grid", "parameter", "fom", "iteration", "names", "settings", "own-folder"]
BUDGET = {"quick": 120, "thorough": 400}
NAMES = ["A", "A2", "A3", "FoM", "file", "time_grid_for_A", "iteration_number"]


def configs(tier):
    r = []
    for fmt in ("npz", "json"):
        for np_, nq in ((1, 0), (1, 1), (2, 0), (2, 1), (1, 2)) + (((2, 2), ) if tier == "thorough" else ()):
            r.append({"name": "names-%s-%d-%d" % (fmt, np_, nq), "h": "run", "fmt": fmt, "np": np_, "nq": nq, "n": 1, "free": True})
        r.append({"name": "direct-" + fmt, "h": "run", "alg": "DirectSearch", "fmt": fmt, "np": 0, "nq": 3, "n": 2, "free": True})
        for dr in ("minimization", "maximization"):
            r.append({"name": "records-%s-%s" % (fmt, dr[:3]), "h": "run", "fmt": fmt, "np": 2, "nq": 2, "n": 3, "free": False, "dir": dr})
            r.append({"name": "ad-%s-%s" % (fmt, dr[:3]), "h": "run", "alg": "AD", "fmt": fmt, "np": 2, "nq": 1, "n": 3, "free": False, "dir": dr})
        # many controls, the best of many evaluations (their order is given)
        for s, (np_, nq, alg) in enumerate(((5, 3, "dCRAB"), (3, 11, "dCRAB"), (0, 12, "DirectSearch"), (4, 4, "AD"))):
            r.append({"name": "many-%s-%d-%d-%s" % (fmt, np_, nq, alg.lower()), "h": "run", "alg": alg, "fmt": fmt, "np": np_, "nq": nq,
                      "n": 3 if alg == "AD" else 14, "free": False, "long": s, "dir": "maximization" if s % 2 else "minimization"})
    r.append({"name": "settings", "h": "settings"})
    r.append({"name": "own-folder", "h": "folder"})
    return r


def deep(v):
    r = []
    for x in cells(v):
        r += deep(x) if isinstance(x, (list, tuple)) else [x]
    return r


def problem(ctx, cfg, names):
    np_, nq = cfg["np"], cfg["nq"]
    pulses, times, pars = [], [], []
    for i in range(np_):
        times.append(time_dict("t%d" % i, ctx.real("T%d" % i, 40 + 10 * i, 45 + 10 * i)))
        pulses.append(pulse_dict(names[i], bins=2 + i, time_name="t%d" % i, lower=-1e3, upper=1e3, var=0.01,
                                 guess=listf(ctx, reals(ctx, "g%d_" % i, 2 + i, 100 + 20 * i, 110 + 20 * i))))
    for i in range(nq):
        pars.append(par_dict(names[np_ + i], ctx.real("q%d" % i, 200 + 20 * i, 210 + 20 * i), -1e3, 1e3, 0.01))
    return pulses, times, pars


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375, 0.75, 0.5625])
    np_, nq = cfg["np"], cfg["nq"]
    alg = cfg.get("alg", "dCRAB")
    sgn = -1 if cfg.get("dir") == "maximization" else 1
    if cfg["free"]:
        names = [ctx.choice("name%d" % i, NAMES) for i in range(np_ + nq)]
    else:
        names = ["x", "Pulse 2", "par", "q/1"] + ["c%d" % i for i in range(np_ + nq)]
        names = names[:np_ + nq]
    pulses, times, pars = problem(ctx, cfg, names)
    kw = {} if alg == "AD" else {"dsm": "NelderMead"}
    d = opt_dict(alg, pulses=pulses, times=times, pars=pars, fmt=cfg["fmt"], direction=cfg.get("dir"), max_eval_total=cfg["n"], **kw)
    order = in_order(ctx, cfg["long"]) if "long" in cfg else None
    vals = [order(i) if order else ctx.real("f%d" % i, -20, 20) for i in range(cfg["n"] + 1)]
    f = FoM(ctx, value=lambda k, c: vals[k])
    run_ = Run(ctx, d, f)
    if alg == "AD":
        env.minimize = fun_minimize(ctx, lambda x0: [x0, [v + 0.125 for v in x0], [v - 0.25 for v in x0]])
    run_.go()
    got = run_.saved_best()
    ctx.check(got is not None, "pulse")
    best = first_min(ctx, [sgn * c["FoM"] for c in f.calls])
    c = f.calls[best]
    entries = {k: [re_(x) for x in deep(v)] for k, v in got.items() if not isinstance(v, str) and not (
        isinstance(v, (list, tuple)) and v and isinstance(v[0], str))}

    def holds(key, want, tol=1e-4 if alg == "AD" else 1e-9):
        e = entries.get(key)
        if e is None or len(e) != len(want):
            return False
        return ctx.allclose(e, [re_(w) for w in want], tol)
    # names that cannot be confused with anything are used as they are
    clear = len(set(names)) == len(names) and not set(names) & {"FoM", "file", "iteration_number", "time_grid_for_A"}
    plain = range(np_ + nq) if clear else []
    for i in range(np_):
        if i in plain:
            ctx.check(holds(names[i], c["pulses"][i]), "pulse")
            ctx.check(holds("time_grid_for_" + names[i], c["timegrids"][i]), "time-grid")
        keys = [k for k in entries if len(entries[k]) == len(c["pulses"][i])]
        ctx.check(ctx.Or(False, *[holds(k, c["pulses"][i]) for k in keys]), "pulse")
        # the grid is stored beside the pulse of the same key
        ctx.check(ctx.Or(False, *[ctx.And(holds(k, c["pulses"][i]), holds("time_grid_for_" + k, c["timegrids"][i])) for k in keys]), "time-grid")
    for i in range(nq):
        if np_ + i in plain:
            ctx.check(holds(names[np_ + i], [c["parameters"][i]]), "parameter")
        ctx.check(ctx.Or(False, *[holds(k, [c["parameters"][i]]) for k in entries if len(entries[k]) == 1]), "parameter")
    ctx.check(holds("FoM", [c["FoM"]], 1e-9), "fom")
    ctx.check(holds("iteration_number", [best + 1], 1e-9), "iteration")
    if np_:
        ctx.check([str(x) for x in cells(got["pulse_names"])] == names[:np_], "names")
    if nq:
        ctx.check([str(x) for x in cells(got["parameter_names"])] == names[np_:], "names")


def settings(ctx, cfg):
    """the settings of the run are stored as they were given"""
    env = setup(ctx)
    cf = {"np": 2, "nq": 1}
    pulses, times, pars = problem(ctx, cf, ["A", "B", "q"])
    d = opt_dict("dCRAB", pulses=pulses, times=times, pars=pars, max_eval_total=1, FoM_goal=ctx.real("goal", -5, 5))
    given = copy.deepcopy(d)
    run_ = Run(ctx, d, FoM(ctx))
    run_.go()
    got = run_.files("optimization_dictionary.json")
    ctx.check(len(got) == 1, "settings")
    sub(ctx, given, parsed(got[0][1]))


def sub(ctx, a, b):
    if isinstance(a, dict):
        ctx.check(isinstance(b, dict) and set(a) <= set(b), "settings")
        for k in a:
            sub(ctx, a[k], b[k])
    elif isinstance(a, (list, tuple, np.ndarray)):
        a, b = list(cells(a)), list(cells(b))
        ctx.check(len(a) == len(b), "settings")
        for x, y in zip(a, b):
            sub(ctx, x, y)
    elif sym.is_sym(a) or isinstance(a, float):
        ctx.check(ctx.allclose([a], [b], 1e-9), "settings")
    else:
        ctx.check(a == b, "settings")


def folder(ctx, cfg):
    """a second run with the same name at the same moment does not touch the files of the first"""
    env = setup(ctx)
    v = [ctx.real("f%d" % i, -20, 20) for i in range(2)]

    def make(k):
        d = opt_dict("DirectSearch", pars=[par_dict("q", 0.25 + k, -9.0, 9.0, 0.5)], max_eval_total=1)
        return Run(ctx, d, FoM(ctx, value=lambda i, c: v[k]))
    a = make(0)
    a.go()
    before = {p: loader.snapshot(e) for p, e in env.vfs.items()}
    try:
        make(1).go()
    except FileExistsError:
        pass
    for p, e in before.items():
        ctx.check(p in env.vfs and same(ctx, e, env.vfs[p]), "own-folder")


def same(ctx, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(ctx, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)):
        x, y = list(cells(a)), list(cells(b))
        return len(x) == len(y) and all(same(ctx, p, q_) for p, q_ in zip(x, y))
    if sym.is_sym(a) or sym.is_sym(b):
        return a is b or ctx.branch(ctx_b(a == b))
    return a == b


HARNESS = {"run": run, "settings": settings, "folder": folder}
