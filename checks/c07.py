"""C07 no evaluation once the run has to stop, none missing before"""
from .alg import *

BOUNDS = ("dCRAB, DirectSearch, GRAPE and AD with Nelder-Mead or CMA-ES; evaluation budget a symbolic integer 1-5, goal, time limit "
          "(minutes), duration of every evaluation, every figure of merit and the evaluation at which the user stops symbolic; 1-2 "
          "super-iterations; both directions; scipy's optimiser replaced by a driver asking for 7 evaluations; "
          "long runs of 16 (thorough: 40) evaluations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "what the best figure of merit is under re-evaluation (C19), more than 6 evaluations before the stop in every order of the figures of merit, durations of the library's own work between evaluations"
EXPECT = ["stops-in-time", "no-early-stop", "result-kept", "run-ends"]
BUDGET = {"quick": 300, "thorough": 850}


def configs(tier):
    r = []
    th = tier == "thorough"
    algs = [("dCRAB", "NelderMead"), ("dCRAB", "CMAES"), ("DirectSearch", "NelderMead"), ("DirectSearch", "CMAES"), ("GRAPE", None), ("AD", None)]
    for a, dsm in algs:
        s = a.lower() + ("-" + dsm.lower() if dsm else "")
        cap = 5 if th and dsm != "CMAES" else 4
        for dr in ("minimization", "maximization"):
            m = dr[:3]
            r.append({"name": "budget-%s-%s" % (s, m), "h": "run", "alg": a, "dsm": dsm, "dir": dr, "what": ["budget"], "cap": cap})
            r.append({"name": "goal-%s-%s" % (s, m), "h": "run", "alg": a, "dsm": dsm, "dir": dr, "what": ["goal"], "cap": cap})
        r.append({"name": "time-%s" % s, "h": "run", "alg": a, "dsm": dsm, "dir": "minimization", "what": ["time"], "cap": cap})
        r.append({"name": "user-%s" % s, "h": "run", "alg": a, "dsm": dsm, "dir": "minimization", "what": ["user"], "cap": cap})
        if dsm != "CMAES":
            r.append({"name": "mixed-%s" % s, "h": "run", "alg": a, "dsm": dsm, "dir": "maximization", "what": ["goal", "time", "user"], "cap": 3})
    for w in ("budget", "goal", "time", "user"):
        r.append({"name": "si2-" + w, "h": "run", "alg": "dCRAB", "dsm": "NelderMead", "dir": "minimization", "what": [w], "cap": 6,
                  "si": 2, "max_eval": 3})
        r.append({"name": "ad-si2-" + w, "h": "run", "alg": "AD", "dsm": None, "dir": "minimization", "what": [w], "cap": 3, "si": 2})
    # long runs: the order of the figures of merit is given
    for i, (a, dsm) in enumerate(algs):
        for w in ("budget", "goal", "time", "user"):
            r.append({"name": "long-%s-%s%s" % (w, a.lower(), "-" + dsm.lower() if dsm else ""), "h": "run", "alg": a, "dsm": dsm, "long": i,
                      "dir": "maximization" if (i + len(w)) % 2 else "minimization", "what": [w], "cap": 16 if not th else 40})
    r.append({"name": "long-si", "h": "run", "alg": "dCRAB", "dsm": "NelderMead", "dir": "minimization", "what": ["budget"], "cap": 24, "si": 8,
              "max_eval": 4, "long": 2})
    r.append({"name": "reeval", "h": "run", "alg": "dCRAB", "dsm": "NelderMead", "dir": "minimization", "what": ["budget"], "cap": 4,
              "re": [0.3, 0.6]})
    # with re-evaluation the goal is reached by the accepted (averaged) best figure of merit
    for a in ("dCRAB", "DirectSearch"):
        for dr in ("minimization", "maximization"):
            r.append({"name": "reeval-goal-%s-%s" % (a.lower(), dr[:3]), "h": "run", "alg": a, "dsm": "NelderMead", "dir": dr, "what": ["goal"],
                      "cap": 4, "re": [0.3, 0.6]})
    return r


def run(ctx, cfg):
    env = setup(ctx)
    what, cap = cfg["what"], cfg["cap"]
    sgn = -1 if cfg["dir"] == "maximization" else 1
    kw = {"max_eval_total": ctx.int("max_eval_total", 1, cap) if "budget" in what else cap}
    limit = kw["max_eval_total"]
    if ctx.symbolic and sym.is_sym(limit):
        limit = ctx.concretize_int(limit)
        kw["max_eval_total"] = limit
    goal = lim = None
    if "goal" in what:
        goal = kw["FoM_goal"] = ctx.real("goal", -100, 100)
    if "time" in what:
        lim = kw["total_time_lim"] = ctx.real("minutes", 0.01, 5000)
    stop_at = ctx.int("stop_at", 0, cap) if "user" in what else None
    if cfg["alg"] in ("dCRAB", "DirectSearch"):
        kw["dsm"] = cfg["dsm"]
        kw["general"] = {"population": 4}
        kw["stop"] = {"max_eval": cfg.get("max_eval", 1000)}
    if "re" in cfg:
        kw["re_evaluation"] = {"re_evaluation_steps": cfg["re"]}
    if cfg["alg"] in ("dCRAB", "AD"):
        kw["super_iteration_number"] = cfg.get("si", 1)
    d = small(cfg["alg"], 2, direction=cfg["dir"], seed=7 if cfg["alg"] != "DirectSearch" else None,
              kind="Fourier" if cfg["alg"] == "dCRAB" else None, **kw)
    stopped = {"user": False}

    def hook(k, c, r):
        c["best"] = run_.alg.best_FoM
        if lim is not None:
            env.clock = env.clock + ctx.real("dt%d" % k, 0, 200000)
        if stop_at is not None and not stopped["user"] and ctx.branch(ctx_b(stop_at == k)):
            stopped["user"] = True
            run_.opt.communication_obj.he_obj.set_is_user_running(False)
    f = FoM(ctx, hook=hook, cap=cap + 3, value=in_order(ctx, cfg["long"]) if "long" in cfg else None, std=(lambda k: 0.25) if "re" in cfg else None)
    run_ = Run(ctx, d, f)
    asked = {"n": 0}
    if cfg["alg"] in ("GRAPE", "AD"):
        def points(x0):
            asked["n"] += 1
            return [[0.25 * i + 0.125 * j for j in range(len(x0))] for i in range((7 if "long" not in cfg else cap + 2) if cfg.get("si", 1) == 1 else 2)]
        env.minimize = fun_minimize(ctx, points)
    t0 = env.clock
    try:
        run_.go()
        ended = True
    except Halt:
        ended = False
    ctx.check(ended, "run-ends")
    calls = f.calls
    N = len(calls)

    def must_stop(k):
        """condition: no evaluation may follow the first k"""
        conds = []
        if k >= limit:
            return True
        if goal is not None:
            if "re" in cfg:
                conds.append((calls[k]["best"] if k < N else run_.alg.best_FoM) <= sgn * goal)
            else:
                conds += [sgn * c["FoM"] <= sgn * goal for c in calls[:k]]
        if lim is not None:
            t = calls[k]["time"] if k < N else env.clock
            conds.append(t - t0 >= 60 * lim)
        if stop_at is not None:
            conds.append(stop_at <= k - 1)
        return ctx.Or(*conds) if conds else False
    for k in range(N):
        ctx.check(ctx.Not(must_stop(k)) if must_stop(k) is not True else False, "stops-in-time")
    # the drivers would go on for ever: the run ends only because it had to (or all super-iterations are through)
    complete = cfg.get("si", 1) > 1 and N >= (2 * 3 if cfg["alg"] == "dCRAB" else 4)
    if not complete:
        ctx.check(must_stop(N), "no-early-stop")
    if N and "re" not in cfg:
        best = run_.final()["Figure of merit"]
        ctx.check(ctx.And(*[sgn * best <= sgn * c["FoM"] for c in calls]), "result-kept")
        ctx.check(run_.alg.iteration_number == N, "result-kept")


HARNESS = {"run": run}
