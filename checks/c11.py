"""C11 the direct search stops exactly when one of its stopping criteria is met"""
from .alg import *
from .c09 import Reference, coefficients, sym_matrix

BOUNDS = ("Nelder-Mead of dimension 1-2 and CMA-ES of dimension 1-2 with populations of 4, at most 7-9 evaluations; evaluation limit "
          "symbolic integer, xatol, fatol, time limit, duration of each evaluation, figures of merit, change threshold symbolic; windows "
          "of 2-4 evaluations for the change criterion, 1-3 super-iterations; "
          "long runs of 24 (thorough: 48) evaluations in up to 3 (4) dimensions with windows up to 11 and up to 4 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet (constant where fatol is the criterion)")
OUTSIDE = "ties between figures of merit, long runs in every order of the figures of merit, default tolerances of 1e-100"
EXPECT = ["stops-when-met", "goes-on-until-met", "reason-holds", "change-stop", "change-no-early-stop"]
BUDGET = {"quick": 300, "thorough": 850}
EPS = 1e-6      # no claim closer than this to a threshold (rounding)
OFF = {"max_eval": 10**6, "xatol": -1.0, "fatol": -1.0}


def configs(tier):
    th = tier == "thorough"
    r = []
    for w in ("max_eval", "xatol", "fatol", "time_lim"):
        r.append({"name": "nm1-" + w, "h": "search", "dsm": "nm", "dim": 1, "what": [w], "cap": 7 if w != "fatol" else 6})
        r.append({"name": "nm2-" + w, "h": "search", "dsm": "nm", "dim": 2, "what": [w], "cap": 6 if w != "fatol" else 5, "half": w == "fatol"})
        if w != "xatol":
            r.append({"name": "cma1-" + w, "h": "search", "dsm": "cma", "dim": 1, "what": [w], "cap": 8})
    r.append({"name": "cma2-max_eval", "h": "search", "dsm": "cma", "dim": 2, "what": ["max_eval"], "cap": 12 if th else 8})
    r.append({"name": "nm1-two", "h": "search", "dsm": "nm", "dim": 1, "what": ["max_eval", "xatol"], "cap": 6})
    r.append({"name": "nm1-time-f", "h": "search", "dsm": "nm", "dim": 1, "what": ["fatol", "time_lim"], "cap": 5})
    r.append({"name": "nm2-all", "h": "search", "dsm": "nm", "dim": 2, "what": ["max_eval", "xatol", "time_lim"], "cap": 5})
    for alg in ("DirectSearch", "dCRAB"):
        for win in (2, 3):
            r.append({"name": "cbs-%s-nm-%d" % (alg.lower(), win), "h": "cbs", "alg": alg, "dsm": "NelderMead", "win": win, "dim": 1, "cap": 5 if not th else 6})
        r.append({"name": "cbs-%s-nm2-4" % alg.lower(), "h": "cbs", "alg": alg, "dsm": "NelderMead", "win": 4, "dim": 2, "cap": 5 if not th else 6})
        r.append({"name": "cbs-%s-cma" % alg.lower(), "h": "cbs", "alg": alg, "dsm": "CMAES", "win": 3, "dim": 1, "cap": 5})
    r.append({"name": "cbs-2si", "h": "cbs", "alg": "dCRAB", "dsm": "NelderMead", "win": 3, "dim": 1, "cap": 6, "si": 2})
    for w, c in ((2, 6),) + (((3, 9),) if th else ()):
        r.append({"name": "cbs-3si-%d" % w, "h": "cbs", "alg": "dCRAB", "dsm": "NelderMead", "win": w, "dim": 1, "cap": c, "si": 3, "shape": True})
    r.append({"name": "cbs-max", "h": "cbs", "alg": "DirectSearch", "dsm": "NelderMead", "win": 3, "dim": 1, "cap": 5, "dir": "maximization"})
    r.append({"name": "cbs-off", "h": "cbs", "alg": "DirectSearch", "dsm": "NelderMead", "win": 1, "dim": 1, "cap": 5})
    # long runs: the order of the figures of merit is given
    m = 2 if th else 1
    for w in ("max_eval", "xatol", "fatol", "time_lim"):
        for dim in (1, 3) if not th else (1, 2, 3, 4):
            r.append({"name": "long-nm%d-%s" % (dim, w), "h": "search", "dsm": "nm", "dim": dim, "what": [w], "cap": 24 * m, "long": dim})
        if w != "xatol":
            r.append({"name": "long-cma-" + w, "h": "search", "dsm": "cma", "dim": 2, "what": [w], "cap": 24 * m, "long": 3})
    for i, (alg, dsm, win, dim, si) in enumerate((("DirectSearch", "NelderMead", 8, 2, 1), ("dCRAB", "NelderMead", 5, 2, 4), ("DirectSearch", "CMAES", 10, 2, 1),
                                                  ("dCRAB", "NelderMead", 11, 1, 2), ("dCRAB", "CMAES", 6, 1, 3))):
        r.append({"name": "long-cbs-%d" % i, "h": "cbs", "alg": alg, "dsm": dsm, "win": win, "dim": dim, "cap": 24 * m, "si": si, "long": i, "dir": "maximization" if i % 2 else None})
    r.append({"name": "si-time", "h": "sitime", "cap": 9})
    return r


def dsm_of(kind, settings, stop):
    if kind == "nm":
        return q("quocslib.gradientfreemethods.NelderMead").NelderMead(settings, stop, callback=lambda: True)
    return q("quocslib.gradientfreemethods.CMAES").CMAES(dict({"population": 4}, **settings), stop, callback=lambda: True)


def reasons(ctx, kind, env):
    """the reason the code gives when only one criterion can be met"""
    r = {}
    for w in ("max_eval", "xatol", "fatol", "time_lim"):
        if w == "xatol" and kind == "cma":
            continue
        st = dict(OFF)
        st[w] = {"max_eval": 2, "xatol": 100.0, "fatol": 1e6, "time_lim": 1.0}[w]
        d = dsm_of(kind, {}, st)
        if w == "time_lim":
            env.clock = env.clock + 120
        n = {"i": 0}

        def f(x, *a):
            n["i"] += 1
            return 1.0 + 0.37 * n["i"]
        res = d.run_dsm(f, np.array([0.5]), initial_simplex=np.array([[0.5], [1.0]]), sigma_v=np.array([0.5]))
        r[w] = res["terminate_reason"]
    return r


def search(ctx, cfg):
    env = setup(ctx)
    kind, dim, cap, what = cfg["dsm"], cfg["dim"], cfg["cap"], cfg["what"]
    why = reasons(ctx, kind, env)
    st = dict(OFF)
    if "max_eval" in what:
        st["max_eval"] = ctx.int("max_eval", 1, cap)
    if "xatol" in what:
        st["xatol"] = ctx.real("xatol", 0.05, 2)
    if "fatol" in what:
        st["fatol"] = ctx.real("fatol", 0.01, 20)
    if "time_lim" in what:
        st["time_lim"] = ctx.real("time_lim", 0.1, 5000)
    lim = dict(st)
    d = dsm_of(kind, {}, st)
    t0 = env.clock
    simplex = [[0.5], [1.25]] if dim == 1 else [[0.5, 0.25], [1.25, 0.5], [0.375, -0.5]]
    if dim > 2:
        simplex = [[0.25 * i - 0.5 + (0.75 + 0.125 * i if i + 1 == j else 0.0) for i in range(dim)] for j in range(dim + 1)]
    ref = Reference(ctx, simplex, coefficients(dim, False)) if kind == "nm" else None
    vals = []
    state = {"iteration": 0}

    def met(e):
        """criteria fulfilled at the end of an iteration; e > 0: or nearly so, e < 0: clearly so"""
        r = {}
        if "max_eval" in what:
            r["max_eval"] = len(vals) >= lim["max_eval"]
        if "time_lim" in what:
            r["time_lim"] = env.clock - t0 >= 60 * lim["time_lim"] - e
        fs = [s[1] for s in ref.S] if kind == "nm" else vals[-4:]
        if "fatol" in what:
            m = sum(fs) / len(fs)
            r["fatol"] = sum([(v - m) * (v - m) for v in fs]) / len(fs) <= lim["fatol"] * lim["fatol"] + e
        if "xatol" in what:
            pts = [s[0] for s in ref.S]
            r["xatol"] = ctx.And(*[ctx.And(a - b <= lim["xatol"] + e, b - a <= lim["xatol"] + e) for p in pts[1:] for a, b in zip(p, pts[0])])
        return r

    def given(k):
        if "fatol" not in what:
            return in_order(ctx, cfg["long"])(k)
        # coming closer together
        return 5.0 + (k * 37 % 23 - 11.0) / (1 + k * k * 0.125)

    def f(x, *a):
        if ended():
            # a new iteration begins: nothing may be met
            m = met(-EPS)
            ctx.check(ctx.Not(ctx.Or(*m.values())), "stops-when-met", "evaluation %d" % len(vals))
        if len(vals) >= cap:
            raise Halt
        if "long" in cfg:
            v = given(len(vals))
        elif kind == "cma" and "fatol" in what and len(vals) >= 4:
            v = [1.0, 2.5, 1.5, 2.0][len(vals) - 4]
        elif kind == "cma" and "fatol" in what and len(vals) >= 2:
            v = vals[1] + (0.5 if len(vals) == 2 else -1.25)
        else:
            v = ctx.real("f%d" % len(vals), -100, 100)
        if cfg.get("half") and len(vals) < 3 and vals:
            ctx.assume(v >= vals[-1] + 1e-4)
        for o in [] if "long" in cfg else vals if kind == "nm" else vals[len(vals) // 4 * 4:]:
            ctx.assume(ctx.Or(v - o >= 1e-4, o - v >= 1e-4))
        vals.append(v)
        if "time_lim" in what:
            env.clock = env.clock + ctx.real("dt%d" % (len(vals) - 1), 0, 200000)
        if ref is not None:
            state["S"] = getattr(ref, "S", None)
            ref.tell(v)
            if getattr(ref, "S", None) is not state["S"]:
                state["iteration"] += 1
                state["at"] = len(vals)
        return v

    def ended():
        """the evaluations so far make up whole iterations (and not only the start simplex)"""
        if kind == "cma":
            return len(vals) > 0 and len(vals) % 4 == 0
        return state["iteration"] >= 2 and state["at"] == len(vals)
    try:
        res = d.run_dsm(f, arr(ctx, simplex[0]), initial_simplex=sym_matrix(ctx, simplex), sigma_v=np.array([0.5] * dim))
    except Halt:
        return
    if not ended():
        ctx.check(False, "goes-on-until-met", "stopped in the middle of an iteration")
    m = met(EPS)
    ctx.check(ctx.Or(*m.values()), "goes-on-until-met")
    ctx.check(ctx.Or(*[c for k, c in m.items() if why[k] == res["terminate_reason"]]), "reason-holds", res["terminate_reason"])


def slope(fs):
    n = len(fs)
    c = (n - 1) / 2.0
    return sum([(i - c) * v for i, v in enumerate(fs)]) / sum([(i - c)**2 for i in range(n)])


def cbs(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375])
    win, cap = cfg["win"], cfg["cap"]
    change = ctx.real("change", 0.01, 50)
    si = cfg.get("si", 1)
    stop = {"max_eval": 10**6, "change_based_stop": {"cbs_funct_evals": win, "cbs_change": change}}
    kw = {"super_iteration_number": si} if cfg["alg"] == "dCRAB" else {}
    d = small(cfg["alg"], cfg["dim"], dsm=cfg["dsm"], stop=stop, general={"population": 4}, direction=cfg.get("dir"), **kw)
    start = {"at": [0], "si": 1}

    def hook(k, c, r):
        if cfg["alg"] == "dCRAB" and run_.alg.super_it != start["si"]:
            start["si"] = run_.alg.super_it
            start["at"].append(k)

    def value(k, c):
        v = in_order(ctx, cfg["long"])(k) if "long" in cfg else ctx.real("f%d" % k, -100, 100)
        if cfg.get("shape") and k in (1, cfg["win"], 5):
            # the start simplexes are ordered: fewer cases
            ctx.assume(v <= f.calls[k - 1]["FoM"] - 1e-3)
        return v
    f = FoM(ctx, cap=cap, hook=hook, value=value)
    run_ = Run(ctx, d, f)
    bounds = []

    def met(fs, e):
        """the change criterion after these evaluations of the current search"""
        if win <= 1 or len(fs) < win:
            return False
        m = slope(fs[-win:]) * win
        return ctx.And(m < change + e, -m < change + e)
    ended = True
    try:
        run_.go()
    except Halt:
        ended = False
    vals = [c["FoM"] for c in f.calls]
    cuts = start["at"]
    for j, a in enumerate(cuts):
        b = cuts[j + 1] if j + 1 < len(cuts) else len(vals)
        seq = vals[a:b]
        last = j + 1 == len(cuts)
        first = cfg["dim"] + 1 if cfg["dsm"] == "NelderMead" else 4
        # nothing follows a fulfilled criterion, but the start simplex and a generation are completed
        for k in range(1, len(seq)):
            if cfg["dsm"] == "NelderMead" and k < first:
                continue
            if cfg["dsm"] != "NelderMead":
                if k % 4:
                    continue
                ctx.check(ctx.Not(ctx.Or(*[met(seq[:i], -EPS) for i in range(k - 3, k + 1)])), "change-stop")
                continue
            hit = ctx.Or(*[met(seq[:i], -EPS) for i in range(1, k + 1)]) if k == first else met(seq[:k], -EPS)
            ctx.check(ctx.Not(hit), "change-stop", "evaluation %d follows" % k)
        if ended or not last:
            ctx.check(len(seq) >= first and ctx.Or(*[met(seq[:i], EPS) for i in range(1, len(seq) + 1)]), "change-no-early-stop")


def sitime(ctx, cfg):
    """the time limit of a search counts from the start of its own super-iteration"""
    env = setup(ctx)
    lim = ctx.real("time_lim", 0.1, 5000)
    d = small("dCRAB", 1, stop={"max_eval": 10**6, "time_lim": lim}, super_iteration_number=2)
    begin = {}

    def hook(k, c, r):
        s = run_.alg.super_it
        if s not in begin:
            begin[s] = (k, c["time"])
        env.clock = env.clock + ctx.real("dt%d" % k, 0, 200000)
    fixed = [3.0, 2.0, 2.5, 2.25, 2.75, 1.5, 1.75, 1.25, 1.0, 0.5]
    f = FoM(ctx, cap=cfg["cap"], hook=hook, value=lambda k, c: fixed[k])
    run_ = Run(ctx, d, f)
    try:
        run_.go()
        ended = True
    except Halt:
        ended = False
    if 2 not in begin:
        ctx.check(not ended, "goes-on-until-met")
        return
    k2, t2 = begin[2]
    ctx.check(t2 - begin[1][1] >= 60 * lim - EPS, "goes-on-until-met")
    if ended:
        ctx.check(env.clock - t2 >= 60 * lim - EPS, "goes-on-until-met")
    if k2 >= 6:
        # an iteration has at most 3 evaluations (dimension 1): when the last one began, the limit was not reached
        ctx.check(f.calls[k2 - 3]["time"] - begin[1][1] < 60 * lim + EPS, "stops-when-met")


HARNESS = {"search": search, "cbs": cbs, "sitime": sitime}
