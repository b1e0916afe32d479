"""C25 optimisations in one process do not disturb each other"""
from .alg import *

BOUNDS = ("two optimisations with 3-6 evaluations each (dCRAB with Nelder-Mead or CMA-ES, 1-2 super-iterations, chopped and piecewise bases, parameters; "
          "DirectSearch; GRAPE; AD; equal and mixed), the second one built or run before, after or at any evaluation of the first, with settings of its "
          "own or the very same dictionary, ended by the user (exit handler or Ctrl-C) or an error or not; all figures of merit symbolic; "
          "long runs of 9-22 evaluations with up to 4 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "Ctrl-C after another optimisation has run inside an evaluation of this one, threads that run at the same time, one object shared by both (evaluation, exit handler), runs without a seed"
EXPECT = ["same-requests", "same-length", "same-result", "same-files", "others-untouched", "settings-reusable"]
BUDGET = {"quick": 200, "thorough": 700}
A = {
    "nm": dict(alg="dCRAB", kind="Fourier", n=4, dim=2),
    "nm-par": dict(alg="dCRAB", kind=None, n=4, dim=2, pars=1),
    "nm-2si": dict(alg="dCRAB", kind="Fourier", n=6, si=2, max_eval=3, dim=2, chain=True),
    "cma": dict(alg="dCRAB", kind=None, n=5, dim=2, dsm="CMAES", chain=True),
    "direct": dict(alg="DirectSearch", n=4, dim=2),
    "direct-cma": dict(alg="DirectSearch", n=5, dim=1, dsm="CMAES", chain=True),
    "grape": dict(alg="GRAPE", n=3, dim=2),
    "ad": dict(alg="AD", n=4, dim=2, si=2),
    "ad-fourier": dict(alg="AD", kind="Fourier", n=3, dim=2),
    "max": dict(alg="dCRAB", kind="Fourier", n=4, dim=2, dir="maximization", fmt="json"),
    "guess": dict(alg="dCRAB", kind=None, n=4, dim=2, pulse={"initial_guess": {"function_type": "list_function", "list_function": [0.25, -0.5]},
                                                             "scaling_function": {"function_type": "lambda_function", "lambda_function": "lambda t: 0.5 + t"}}),
    "goal": dict(alg="dCRAB", kind=None, n=4, dim=2, dir="maximization", alg_kw={"FoM_goal": 5.0}),
    "goal-direct": dict(alg="DirectSearch", n=4, dim=2, alg_kw={"FoM_goal": -7.0}),
    "two": dict(alg="dCRAB", kind="Fourier", n=4, dim=4, pulse_list=[("Z", "PiecewiseBasis", 2, "t"), ("B", "Fourier", 3, "s")], times={"t": 3.0, "s": 1.5}),
    "time": dict(alg="dCRAB", kind="Fourier", n=3, dim=2, times={"t": 7.0}),
    "sigmoid": dict(alg="dCRAB", kind="Fourier", n=3, dim=2, basis="SigmoidTimeDep"),
    "re": dict(alg="dCRAB", kind="Fourier", n=5, dim=2, re=[0.3, 0.5], chain=True),
    "cbs": dict(alg="DirectSearch", n=4, dim=1, stop={"change_based_stop": {"cbs_funct_evals": 3, "cbs_change": 0.5}}),
}


# the order of the figures of merit is given
A.update({
    "long-dcrab": dict(alg="dCRAB", kind="Fourier", n=22, si=4, max_eval=6, dim=2, long=0),
    "long-piecewise": dict(alg="dCRAB", kind=None, n=20, si=3, max_eval=7, dim=4, pars=2, long=1, dir="maximization"),
    "long-direct": dict(alg="DirectSearch", n=18, dim=4, long=2),
    "long-cma": dict(alg="DirectSearch", n=17, dim=3, dsm="CMAES", long=3),
    "long-two": dict(alg="dCRAB", kind="Fourier", n=16, dim=4, si=3, max_eval=6, long=4, times={"t": 3.0, "s": 1.5},
                     pulse_list=[("Z", "PiecewiseBasis", 2, "t"), ("B", "Fourier", 3, "s")]),
    "long-grape": dict(alg="GRAPE", n=9, dim=4, long=5),
    "long-ad": dict(alg="AD", n=9, dim=3, si=3, long=6),
})


def configs(tier):
    r = []

    def add(a, b, mode, **k):
        r.append(dict({"name": "%s+%s-%s%s" % (a, b, mode, "".join("-%s" % v for v in k.values())), "h": "run", "a": a, "b": b, "mode": mode}, **k))
    for x in A:
        add(x, x, "reuse")
        add(x, x, "built-first")
    for x in ("nm", "direct", "grape", "ad", "cma", "re"):
        add(x, x, "inside")
    for x, y in (("nm", "direct"), ("direct", "nm-par"), ("grape", "nm"), ("ad", "grape"), ("nm", "ad"), ("max", "nm"), ("nm", "max"), ("cma", "nm"),
                 ("direct", "cma"), ("nm", "time"), ("time", "nm"), ("goal", "goal-direct"), ("two", "nm")):
        add(x, y, "inside")
        add(x, y, "built-first")
    for x in ("nm", "direct", "grape", "ad", "cma"):
        add(x, "nm", "inside", end="user")
        add(x, "direct", "inside", end="error")
    for x, y in (("long-dcrab", "long-piecewise"), ("long-cma", "long-dcrab"), ("long-direct", "long-direct"), ("long-two", "long-two"), ("long-grape", "long-ad")):
        add(x, y, "inside", deep=1)
    for x in ("nm", "direct", "grape", "ad", "cma"):
        add(x, "nm" if x == "direct" else "direct", "built-first", first="ctrl-c")
    if tier == "thorough":
        for x in A:
            for y in A:
                if "long" not in A[x] or "long" not in A[y]:
                    add(x, y, "inside", deep=1)
    return r


def settings(a):
    kw = {}
    if a["alg"] in ("dCRAB", "DirectSearch"):
        kw["general"] = {"population": 4}
        kw["stop"] = dict({"max_eval": a.get("max_eval", 100)}, **a.get("stop", {}))
        kw["dsm"] = a.get("dsm", "NelderMead")
    if a["alg"] in ("dCRAB", "AD"):
        kw["super_iteration_number"] = a.get("si", 1)
    if "re" in a:
        kw["re_evaluation"] = {"re_evaluation_steps": a["re"]}
    d = small(a["alg"], a["dim"], kind=a.get("kind"), pars=a.get("pars", 0), direction=a.get("dir"), fmt=a.get("fmt", "npz"),
              max_eval_total=a["n"], name="job", **dict(kw, **copy.deepcopy(a.get("alg_kw", {}))))
    if "pulse_list" in a:
        d["pulses"] = [pulse_dict(n, k, bins=b, time_name=t, lower=-5.0, upper=5.0, var=0.5, nv=1) for n, k, b, t in a["pulse_list"]]
    if "times" in a:
        d["times"] = [time_dict(n, v) for n, v in a["times"].items()]
    if "basis" in a:
        d["pulses"] = [pulse_dict("A", a["basis"], bins=3, time_name="t", lower=-5.0, upper=5.0, var=0.5, nv=1)]
    for p in d["pulses"]:
        p.update(copy.deepcopy(a.get("pulse", {})))
    return d


def values(ctx, a, name, chain):
    vals = []
    if "long" in a:
        order = in_order(ctx, a["long"], name)
        return [order(k) for k in range(a["n"] + 1)]
    for k in range(a["n"] + 1):
        v = ctx.real("%s%d" % (name, k), -100, 100)
        if (chain or a.get("chain")) and k:
            ctx.assume(v <= vals[-1] - 1e-3 if k in (1, 2, 4) else v >= vals[-1] + 1e-3)
        vals.append(v)
    return vals


class One:
    def __init__(self, ctx, a, d, seed, vals, hook=None, end=None):
        self.ctx, self.a, self.vals, self.options = ctx, a, vals, None
        d["algorithm_settings"]["random_number_generator"] = {"seed_number": seed}

        def h(k, c, r):
            if hook:
                hook(k)
            if end == "ctrl-c" and k == 1:
                ENV().sigint(2, None)
            if end == "user" and k == 1:
                self.run.opt.communication_obj.he_obj.set_is_user_running(False)
        self.f = FoM(ctx, value=lambda k, c: vals[min(k, len(vals) - 1)], cap=a["n"] + 3, std=(lambda k: 0.25) if "re" in a else None, hook=h,
                     status=(lambda k: -3 if k == 1 else 0) if end == "error" else None)
        env = ENV()
        env.clock = env.clock + 5.0
        env.runs = getattr(env, "runs", 0) + 1
        env.stamp = "20240101_0000%02d" % env.runs      # (two runs with one name do not start in the same second)
        self.run = Run(ctx, d, self.f)

    def go(self):
        env, a = ENV(), self.a
        before = env.minimize
        if a["alg"] in ("GRAPE", "AD"):
            inner = fun_minimize(self.ctx, lambda x0: ([x0] + [[v + 0.125 for v in x0], [v - 0.25 for v in x0], [v + 0.5 for v in x0]] + [[v + 0.0625 * j for v in x0] for j in range(3, 13)])[:a["n"] // a.get("si", 1)])

            def minimize(*args, **k):
                self.options = k.get("options"), k.get("bounds")
                return inner(*args, **k)
            env.minimize = minimize
        try:
            self.run.go()
        except Halt:
            pass
        finally:
            env.minimize = before
        return self

    def files(self):
        root = self.run.opt.results_path
        return {p[len(root):].replace(self.run.opt.communication_obj.date_time, "*"): e for p, e in ENV().vfs.items() if p.startswith(root + "/")}


def numbers(v):
    """everything in a saved structure, strings and numbers"""
    if isinstance(v, dict):
        r = []
        for k in sorted(v, key=str):
            r += [str(k)] + numbers(v[k])
        return r
    if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim or hasattr(v, "shape") and getattr(v, "ndim", 0):
        r = []
        for x in cells(v) if not isinstance(v, (list, tuple)) else v:
            r += numbers(x)
        return r
    return [v]


def same_data(ctx, x, y, label):
    a, b = numbers(x), numbers(y)
    ctx.check(len(a) == len(b), label)
    word = [isinstance(u, (str, bool, type(None))) or isinstance(w, (str, bool, type(None))) for u, w in zip(a, b)]
    ctx.check(all(type(u) is type(w) and u == w for u, w, k in zip(a, b, word) if k), label)
    nums = [(re_(u), re_(w)) for u, w, k in zip(a, b, word) if not k]
    if nums:
        ctx.check(ctx.allclose([u for u, _ in nums], [w for _, w in nums], 1e-6), label)


def compare(ctx, alone, now):
    ctx.check(len(alone["calls"]) == len(now["calls"]), "same-length", "%d and %d" % (len(alone["calls"]), len(now["calls"])))
    for x, y in zip(alone["calls"], now["calls"]):
        eq(ctx, x, y, "same-requests", 1e-7)
    same_data(ctx, alone["best"], now["best"], "same-result")
    same_data(ctx, alone["options"], now["options"], "same-requests")
    same_data(ctx, alone["list"], now["list"], "same-result")
    ctx.check(sorted(alone["files"]) == sorted(now["files"]), "same-files", "%s %s" % (sorted(alone["files"]), sorted(now["files"])))
    for k, e in alone["files"].items():
        if k in now["files"] and ("best_controls" in k or "optimized_parameters" in k):
            same_data(ctx, parsed(e), parsed(now["files"][k]), "same-files")


def outcome(o):
    return {"calls": [flat(c) for c in o.f.calls], "best": o.run.best(), "list": list(o.run.alg.FoM_list) + [o.run.alg.best_FoM], "files": o.files(), "options": [repr(x) for x in o.options or ()]}


def world(ctx):
    fresh()
    env = setup(ctx)

    def draw(gen, kind, k):
        s = gen.seed if gen.seed not in (None, "global") else 77
        return round(0.3 + 0.7 * (((s * 13 + k + 1) * 0.6180339887) % 1.0), 4)
    env.gen_draw = draw
    return env


def run(ctx, cfg):
    a, b = A[cfg["a"]], A[cfg["b"]]
    # one of the two with every order of its figures of merit, the other with one of them
    first = cfg.get("first")
    va, vb = values(ctx, a, "f", cfg["mode"] == "reuse"), values(ctx, b, "g", cfg["mode"] != "reuse")
    end = cfg.get("end")
    world(ctx)
    alone_a = outcome(One(ctx, a, settings(a), 3, va, end=first).go())
    world(ctx)
    alone_b = outcome(One(ctx, b, settings(b), 5, vb, end=end).go())
    env = world(ctx)
    if cfg["mode"] == "reuse":
        d = settings(a)
        now_a = outcome(One(ctx, a, d, 3, va).go())
        o = One(ctx, b, d, 5, vb, end=end)
        now_b = outcome(o.go())
        compare(ctx, alone_b, now_b)
        ctx.check(True, "settings-reusable")
        compare(ctx, alone_a, now_a)
        return
    if cfg["mode"] == "built-first":
        x, y = One(ctx, a, settings(a), 3, va, end=first), One(ctx, b, settings(b), 5, vb)
        x.go()
        y.go()
        compare(ctx, alone_b, outcome(y))
        compare(ctx, alone_a, outcome(x))
        ctx.check(True, "others-untouched")
        return
    at = ctx.int("at", 0, a["n"] - 1)
    inner = []

    def hook(k):
        if not inner and ctx.branch(ctx_b(at == k)):
            keep = env.minimize
            y = One(ctx, b, settings(b), 5, vb, end=end)
            inner.append(y)
            y.go()
            env.minimize = keep
    x = One(ctx, a, settings(a), 3, va, hook=hook).go()
    compare(ctx, alone_a, outcome(x))
    if inner:
        compare(ctx, alone_b, outcome(inner[0]))
    ctx.check(True, "others-untouched")


HARNESS = {"run": run}
