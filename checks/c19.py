"""C19 re-evaluation of noisy figures of merit"""
from .alg import *

BOUNDS = ("dCRAB and DirectSearch, both directions, 1-4 re-evaluation steps (and the default ones), a search that asks for 2-4 points and "
          "Nelder-Mead; every measured figure of merit symbolic in [-100, 100], standard deviations symbolic for two points with one step and "
          "fixed different numbers otherwise; runs ended at any evaluation by the budget, an error or the user; the normal distribution "
          "function is uninterpreted: monotone, 1/2 at 0, close to 0 and 1 beyond 4; "
          "long runs of 12-14 points or 24 evaluations and up to 4 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "more than 12 evaluations in every order of the figures of merit, numerical values of the distribution function, values reported during a drift compensation"
EXPECT = ["same-controls", "repeats", "average-returned", "record-fom", "record-std", "record-controls", "saved", "reported"]
BUDGET = {"quick": 200, "thorough": 700}
STD = [0.5, 1.25, 0.25, 2.0, 0.75, 1.5, 0.0, 0.0, 1.0, 0.5, 3.0, 0.125, 1.0]


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "alg": "dCRAB", "steps": [0.33, 0.5], "n": 3, "dir": "minimization"}, **k))
    for alg in ("dCRAB", "DirectSearch"):
        s = alg.lower() + "-"
        for dr in ("minimization", "maximization"):
            add(s + dr[:3], alg=alg, dir=dr)
        add(s + "one", alg=alg, steps=[0.5], n=4 if th else 3)
        add(s + "three", alg=alg, steps=[0.25, 0.5, 0.51], n=3 if th else 2)
        add(s + "default", alg=alg, steps=None, n=2)
        add(s + "low", alg=alg, steps=[0.1, 0.2], n=2)
        add(s + "falling", alg=alg, steps=[0.6, 0.3, 0.4, 0.2], n=2)
        add(s + "no-std", alg=alg, std="none", n=3)
        add(s + "zero-std", alg=alg, std="zero", n=3)
        add(s + "std", alg=alg, steps=[0.5], n=2, std="free")
        for e in ("budget", "error", "user"):
            add(s + "end-" + e, alg=alg, n=2, end=e, dir="maximization" if e == "error" else "minimization")
            add(s + "end-low-" + e, alg=alg, n=2, end=e, steps=[0.1, 0.2])
    add("dcrab-si", n=2, si=2, steps=[0.5])
    for s, dr in enumerate(("minimization", "maximization")):
        # long runs: the order of the figures of merit is given
        for alg in ("dCRAB", "DirectSearch"):
            add("long-%s-%s" % (alg.lower(), dr[:3]), alg=alg, n=14, dir=dr, long=s)
            add("long-%s-nm-%s" % (alg.lower(), dr[:3]), alg=alg, n=3, nm=True, steps=[0.4, 0.5], total=24, long=s + 5, dir=dr)
            if th or (s == 1) == (alg == "dCRAB"):
                add("long-%s-zero-%s" % (alg.lower(), dr[:3]), alg=alg, steps=None, n=12, dir=dr, long=s + 2, std="zero")
            if not th:
                continue
            add("long-%s-default-%s" % (alg.lower(), dr[:3]), alg=alg, steps=None, n=7, dir=dr, long=s + 2)
            add("long-%s-falling-%s" % (alg.lower(), dr[:3]), alg=alg, steps=[0.6, 0.3, 0.4, 0.2, 0.5, 0.1], n=6, dir=dr, long=s + 4)
        add("long-dcrab-si-%s" % dr[:3], n=4, si=4, steps=[0.5], long=s + 3, dir=dr)
        if th:
            add("long-budget-%s" % dr[:3], n=5, si=2, end="budget", steps=[0.4, 0.5], long=s + 3, dir=dr)
    add("dcrab-nm", n=3, nm=True, steps=[0.4], total=6)
    return r


def reference(ctx, steps, first, measure, best, bstd):
    """measure() gives (fom, std) or None when the run is over; returns mean, mean deviation, number of measurements, is it a record"""
    ms, mu, sd = [], None, None
    todo = list(steps) if not first else [0.5]
    k = 0
    while True:
        m = measure()
        if m is None:
            return mu, sd, len(ms), False, True
        ms.append(m)
        mu = sum(x[0] for x in ms) / len(ms)
        sd = sum(x[1] for x in ms) / len(ms)
        p = better(ctx, mu, sd, best, bstd)
        if k == len(todo):
            return mu, sd, len(ms), br(ctx, p > todo[-1]), False
        if br(ctx, p < todo[k]):
            return mu, sd, len(ms), False, False
        k += 1


def br(ctx, c):
    return ctx.branch(ctx_b(c)) if sym.is_sym(c) else bool(c)


def better(ctx, m1, s1, m2, s2):
    v = s1 * s1 + s2 * s2
    s = v.sqrt() if sym.is_sym(v) else math.sqrt(v)
    if br(ctx, s < 1e-14):
        s = 1.0
    return fn(ctx, "normcdf", (m2 - m1) / s)


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375])
    alg, n, steps = cfg["alg"], cfg["n"], cfg["steps"]
    sgn = -1 if cfg["dir"] == "maximization" else 1
    kw = {"re_evaluation": {} if steps is None else {"re_evaluation_steps": list(steps)}}
    steps = steps or [0.3, 0.5, 0.501]
    end = cfg.get("end")
    most = n * (len(steps) + 1) * cfg.get("si", 1)
    total = ctx.int("budget", 1, most) if end == "budget" else cfg.get("total", 1000)
    if end == "budget":
        total = ctx.concretize_int(total) if hasattr(ctx, "concretize_int") and ctx.symbolic else total
        kw["max_eval_total"] = total
    elif "total" in cfg:
        kw["max_eval_total"] = total
    if alg == "dCRAB":
        kw["super_iteration_number"] = cfg.get("si", 1)
    stop_at = ctx.int("stop_at", 0, most - 1) if end in ("error", "user") else None
    d = small(alg, 1 if cfg.get("nm") else 2, direction=cfg["dir"], dsm="NelderMead", **kw)
    kind = cfg.get("std", "list")
    stds = []

    def std(k):
        s = ctx.real("s%d" % k, 0.1, 5) if kind == "free" else STD[k % len(STD)] if kind == "list" else 0.0
        stds.append(s)
        return s

    def hook(k, c, r):
        if stop_at is not None and br(ctx, stop_at == k):
            if end == "user":
                run_.opt.communication_obj.he_obj.set_is_user_running(False)
                c["last"] = True
            else:
                r["status_code"] = 3
                c["bad"] = True
    f = FoM(ctx, std=None if kind == "none" else std, hook=hook, cap=60, value=in_order(ctx, cfg["long"]) if "long" in cfg else None)
    run_ = Run(ctx, d, f)
    asked, it = [], {"i": 0}

    def search(func, x0, **k):
        v = None
        for j in range(n):
            # spread far apart: which point the controls belong to is decidable
            w = 0.5 if it["i"] < 14 and "long" not in cfg else 0.125
            p = reals(ctx, "pt%d_" % it["i"], len(x0), -2 + w * it["i"], -2 + w * it["i"] + w / 2)
            it["i"] += 1
            a = len(f.calls)
            v = func(arr(ctx, p), j)
            asked.append((a, len(f.calls), v))
        return {"F_min_val": v, "X_opti_vec": arr(ctx, p), "NitUsed": 1, "NfunevalsUsed": n, "terminate_reason": "done"}
    if cfg.get("nm"):
        spy(run_.alg, f, asked)
    else:
        run_.alg.dsm_obj.run_dsm = search
    run_.go()
    reported = []
    best, bstd, where, over = 10**10, 0.0, None, False
    for (a, b, v) in asked:
        if over:
            ctx.check(a == b, "repeats", "evaluation after the end")
            continue
        calls = f.calls[a:b]
        for c in calls[1:]:
            eq(ctx, flat(c), flat(calls[0]), "same-controls", 1e-9)
        i = {"i": a}
        for k in range(a, b):
            if not calls[k - a].get("bad"):
                reported.append((k + 1, sum(c["FoM"] for c in calls[:k - a + 1]) / (k - a + 1)))

        def measure():
            k = i["i"]
            if "max_eval_total" in kw and k >= kw["max_eval_total"]:
                return None
            if k > 0 and (f.calls[k - 1].get("last") or f.calls[k - 1].get("bad")):
                return None
            i["i"] += 1
            if k >= len(f.calls):
                raise Missing()
            if f.calls[k].get("bad"):
                return None
            return sgn * f.calls[k]["FoM"], 1.0 if kind == "none" else stds[k]
        try:
            mu, sd, cnt, rec, over = reference(ctx, steps, a == 0, measure, best, bstd)
        except Missing:
            ctx.check(False, "repeats", "too few evaluations of point %d" % a)
            return
        ctx.check(i["i"] == b, "repeats", "point at %d: %d evaluations instead of %d" % (a, b - a, i["i"] - a))
        if not over:
            ctx.check(ctx.allclose([v], [mu], 1e-6), "average-returned")
        if rec:
            best, bstd, where = mu, sd, a
    # the history: after every repetition the average of the measurements of this point so far
    ctx.check([int(v) for v in run_.alg.iteration_number_list] == [k for k, _ in reported], "reported", "evaluation numbers")
    ctx.check(ctx.allclose(list(run_.alg.FoM_list), [v for _, v in reported], 1e-6), "reported")
    if run_.signals:
        got = run_.signals[1].args
        ctx.check(len(got) == len(reported), "reported", "signals")
    fin = run_.final()
    if where is None:
        ctx.check(run_.saved_best() is None, "saved")
        return
    ctx.check(ctx.allclose([fin["Figure of merit"]], [sgn * best], 1e-6), "record-fom")
    if alg == "dCRAB":
        ctx.check(ctx.allclose([fin["Std"]], [bstd], 1e-6), "record-std")
    got = run_.best()
    if cfg.get("si", 1) == 1:
        eq(ctx, got["pulses"] + got["parameters"], flat(f.calls[where]), "record-controls", 1e-6)
    s = run_.saved_best()
    ctx.check(s is not None, "saved")
    if s is not None:
        ctx.check(ctx.allclose([re_(x) for x in cells(s["FoM"])], [sgn * best], 1e-6), "saved")
        names = [p["pulse_name"] for p in d["pulses"]] + [p["parameter_name"] for p in d["parameters"]]
        eq(ctx, [re_(x) for nm in names for x in cells(s[nm])], flat(f.calls[where]), "saved", 1e-6)


class Missing(Exception):
    pass


def spy(alg, f, asked):
    """the real search, with a look at what it asks for"""
    orig = alg.dsm_obj.run_dsm

    def run_dsm(func, x0, **k):
        def g(*a):
            i = len(f.calls)
            v = func(*a)
            asked.append((i, len(f.calls), v))
            return v
        return orig(g, x0, **k)
    alg.dsm_obj.run_dsm = run_dsm


HARNESS = {"run": run}
