"""C27 settings mean what the documentation says, however they are written down"""
import json
import os
import shutil
import tempfile

from .alg import *
from .c25 import compare, numbers, outcome, same_data

BOUNDS = ("dCRAB (Nelder-Mead, CMA-ES), DirectSearch, GRAPE and AD runs of 4-8 evaluations, every basis; each documented setting left out and given with "
          "its documented default, and the whole settings in 12 other spellings, compared for every figure of merit (symbolic) and, where the search "
          "is replaced, for every sequence of search points (symbolic in [-3, 3], 2-3 points); 3-5 bins (101 where the number of bins is left out)")
OUTSIDE = "settings without a documented default that are left out; limits of evaluations and time beyond the run (their documented default is only known not to end it)"
EXPECT = ["same-requests", "same-result", "same-length", "same-search"]
BUDGET = {"quick": 200, "thorough": 800}
SHAPING = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
CH = ["Fourier", "Chebyshev", "Sinc", "Sigmoid"]
ALL = CH + ["PiecewiseBasis", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"]
MOD = "quocslib.pulses.basis."
# (name, base, path to the dictionary, key, documented default)
DEF = [
    ("direction", "nm", ["algorithm_settings"], "optimization_direction", "minimization"),
    ("direction-direct", "direct", ["algorithm_settings"], "optimization_direction", "minimization"),
    ("direction-grape", "grape", ["algorithm_settings"], "optimization_direction", "minimization"),
    ("direction-ad", "ad", ["algorithm_settings"], "optimization_direction", "minimization"),
    ("max-eval-total", "nm", ["algorithm_settings"], "max_eval_total", 10 * 10**10),
    ("adaptive", "nm3", ["algorithm_settings", "dsm_settings", "general_settings"], "is_adaptive", False),
    ("adaptive-direct", "direct3", ["algorithm_settings", "dsm_settings", "general_settings"], "is_adaptive", False),
    ("population-2", "cma2", ["algorithm_settings", "dsm_settings", "general_settings"], "population", 4 + int(3 * math.log(2))),
    ("population-3", "cma3", ["algorithm_settings", "dsm_settings", "general_settings"], "population", 4 + int(3 * math.log(3))),
    ("max-eval", "nm", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "max_eval", 10 * 10**10),
    ("max-eval-cma", "cma2", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "max_eval", 10 * 10**10),
    ("xatol", "tol", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "xatol", 1e-14),
    ("fatol", "tol", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "fatol", 1e-100),
    ("xatol-cma", "tolcma", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "xatol", 1e-14),
    ("fatol-cma", "tolcma", ["algorithm_settings", "dsm_settings", "stopping_criteria"], "fatol", 1e-100),
    ("num-average", "drift", ["algorithm_settings", "compensate_drift"], "num_average", 1),
    ("format", "nm", [], "dump_format", "npz"),
    ("format-ad", "ad", [], "dump_format", "npz"),
    ("upper", "pw", ["pulses", 0], "upper_limit", 1.0),
    ("lower", "pw", ["pulses", 0], "lower_limit", 0.0),
    ("bins", "f", ["pulses", 0], "bins_number", 101),
    ("variation", "f", ["pulses", 0], "amplitude_variation", 1.0),
    ("variation-pw", "pw", ["pulses", 0], "amplitude_variation", 1.0),
    ("variation-cma", "cma2", ["pulses", 0], "amplitude_variation", 1.0),
    ("shrink", "pw", ["pulses", 0], "shrink_ampl_lim", False),
    ("guess", "f", ["pulses", 0], "initial_guess", {"function_type": "lambda_function", "lambda_function": "lambda t: 0.0 * t"}),
    ("guess-list", "f", ["pulses", 0], "initial_guess", {"function_type": "list_function", "list_function": [0.0, 0.0, 0.0]}),
    ("scaling", "f", ["pulses", 0], "scaling_function", {"function_type": "lambda_function", "lambda_function": "lambda t: 1.0 + 0.0 * t"}),
    ("scaling-list", "f", ["pulses", 0], "scaling_function", {"function_type": "list_function", "list_function": [1.0, 1.0, 1.0]}),
    ("shaping", "pwg", ["pulses", 0], "shaping_options", SHAPING),
    ("shaping-ad", "adg", ["pulses", 0], "shaping_options", SHAPING),
    ("pulse-name", "f", ["pulses", 0], "pulse_name", "pulse"),
    ("pulse-name-grape", "grape", ["pulses", 0], "pulse_name", "pulse"),
    ("pulse-name-ad", "ad", ["pulses", 0], "pulse_name", "pulse"),
    ("time-name", "f", [], "time", "time"),
    ("time-name-grape", "grape", [], "time", "time"),
    ("time-name-ad", "ad", [], "time", "time"),
    ("pulse-time-name", "f", ["pulses", 0], "time_name", "time"),
    ("time-time-name", "f", ["times", 0], "time_name", "time"),
    ("parameter-name", "par", ["parameters", 0], "parameter_name", "parameter"),
    ("parameter-lower", "par", ["parameters", 0], "lower_limit", 0.1),
    ("parameter-upper", "par", ["parameters", 0], "upper_limit", 1.1),
    ("parameter-value", "par", ["parameters", 0], "initial_value", 0.1),
    ("parameter-variation", "par", ["parameters", 0], "amplitude_variation", 0.1),
    ("parameter-variation-mixed", "pw", ["parameters", 0], "amplitude_variation", 0.1),
    ("time-value", "f", ["times", 0], "initial_value", 1.0),
    ("sigma", "Sigmoid", ["pulses", 0, "basis"], "sigma", 0.1),
    ("offset", "Sigmoid", ["pulses", 0, "basis"], "offset", 0.1),
    ("basis-max", "Sinc", ["pulses", 0, "basis"], "basis_max", 1.0),
] + [("vectors-" + k, k, ["pulses", 0, "basis"], "basis_vector_number", 1) for k in CH]


def configs(tier):
    th = tier == "thorough"
    r = [{"name": "default-" + n, "h": "default", "i": i} for i, (n, *_) in enumerate(DEF)]
    kinds = ["nm", "cma2", "direct", "grape", "ad", "par", "two"] + (ALL if th else ["Sinc", "PiecewiseBasis"])
    for f in ("extra", "reversed", "tuples", "arrays", "ints", "json", "times", "limits", "floats"):
        for b in kinds:
            r.append({"name": "%s-%s" % (f, b), "h": "form", "form": f, "base": b})
    for f in ("module", "attribute"):
        for b in ["nm", "cma2", "direct", "grape", "ad"] + ALL:
            r.append({"name": "%s-%s" % (f, b), "h": "form", "form": f, "base": b})
    for b in ("f", "pw", "adg"):
        for f in ("file", "file-py", "file-relative", "list", "file-pulse"):
            r.append({"name": "%s-%s" % (f, b), "h": "form", "form": f, "base": b})
    return r


def base(ctx, b):
    """settings; what is asked of the search (None: the real search runs); number of evaluations"""
    S = {"super_iteration_number": 1}
    if b == "nm":
        return small("dCRAB", 2, kind="Fourier", max_eval_total=5, seed=11, name="job"), None
    if b == "nm3":
        return small("dCRAB", 3, max_eval_total=8, seed=11, name="job"), "chain"
    if b == "drift":
        return small("dCRAB", 2, max_eval_total=9, seed=11, name="job", stop={"max_eval": 4},
                     compensate_drift={"compensate_after_SI": True, "compensate_after_minutes": 0.25}), "drift"
    if b in ("cma2", "cma3"):
        return small("dCRAB", int(b[3]), dsm="CMAES", max_eval_total=9 if b == "cma2" else 8, seed=11, name="job"), "chain"
    if b == "direct":
        return small("DirectSearch", 2, max_eval_total=5, seed=11, name="job"), None
    if b == "direct3":
        return small("DirectSearch", 3, max_eval_total=8, seed=11, name="job"), "chain"
    if b == "tol":
        d = small("DirectSearch", 1, max_eval_total=4, seed=11, name="job", stop={"xatol": 1e-14, "fatol": 1e-100})
        return d, "close"
    if b == "tolcma":
        d = small("DirectSearch", 1, dsm="CMAES", general={"population": 3}, max_eval_total=4, seed=11, name="job", stop={"xatol": 1e-14, "fatol": 1e-100})
        return d, "close"
    if b == "grape":
        return small("GRAPE", 3, name="job", max_eval_total=4), None
    if b == "ad":
        return small("AD", 3, name="job", max_eval_total=4, seed=11, super_iteration_number=2), None
    if b == "adg":
        d = small("AD", 3, name="job", max_eval_total=4, seed=11, super_iteration_number=2)
    elif b == "par":
        return small("DirectSearch", 2, max_eval_total=4, seed=11, name="job"), "points"
    elif b == "two":
        d = small("dCRAB", 3, pars=1, max_eval_total=4, seed=11, name="job")
        d["pulses"] = [pulse_dict("Z", "PiecewiseBasis", bins=2, time_name="t", lower=-1.0, upper=2.0, var=0.5),
                       pulse_dict("B", "Fourier", bins=3, time_name="s", lower=-2.0, upper=2.0, var=0.5, nv=1)]
        d["times"] = [time_dict("t", 3.0), time_dict("s", 2.0)]
        return d, "points"
    else:
        kind = b if b in ALL else "Fourier" if b == "f" else "PiecewiseBasis"
        d = small("dCRAB", 3, pars=1, max_eval_total=6, seed=11, name="job", super_iteration_number=2)
        d["pulses"] = [pulse_dict("A", kind, bins=3, time_name="t", lower=-2.0, upper=2.0, var=0.5, nv=1)]
        d["times"] = [time_dict("t", 2.0)]
    if b in ("f", "pw", "pwg", "adg"):
        d["pulses"][0]["initial_guess"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.5 - 0.25 * t"}
        d["pulses"][0]["scaling_function"] = {"function_type": "lambda_function", "lambda_function": "lambda t: 0.5 + t"}
    return d, None if b == "adg" else "points"


def at(d, path):
    for p in path:
        d = d[p]
    return d


class One:
    def __init__(self, ctx, d, vals, points, mode):
        self.f = FoM(ctx, value=lambda k, c: vals[min(k, len(vals) - 1)], cap=len(vals) + 2)
        self.ctx, self.points, self.mode, self.options = ctx, points, mode, None
        self.run = Run(ctx, d, self.f)

    def go(self):
        env, it = ENV(), {"i": 0}
        self.options = []
        if self.points is not None:
            def search(func, x0, **k):
                # everything the search is told
                self.options.append([x0] + [k[n] for n in sorted(k) if n in ("initial_simplex", "sigma_v")])
                n = 3 if len(self.options) == 1 else 2
                v, p = None, None
                for j in range(n):
                    p = [self.points[(it["i"] + m) % len(self.points)] for m in range(len(cells(x0)))]
                    it["i"] += len(p)
                    v = func(arr(self.ctx, p), j)
                return {"F_min_val": v, "X_opti_vec": arr(self.ctx, p), "NitUsed": 1, "NfunevalsUsed": n, "terminate_reason": "done"}
            self.run.alg.dsm_obj.run_dsm = search
        inner = fun_minimize(self.ctx, lambda x0: [x0, [v + 0.125 for v in x0], [v - 0.25 for v in x0]][:2])

        def minimize(*a, **k):
            self.options.append([repr(k.get("options")), repr(k.get("bounds"))])
            return inner(*a, **k)
        env.minimize = minimize
        env.now = env.now
        self.run.go()
        return self

    def files(self):
        return {}


def world(ctx, mode):
    fresh()
    env = setup(ctx)

    def draw(gen, kind, k):
        return round(0.3 + 0.7 * (((k + 1) * 0.6180339887) % 1.0), 4)
    env.gen_draw = draw
    if mode == "drift":
        # every look at the clock takes its time
        real = env.now

        def now():
            env.clock = env.clock + 4.0
            return real()
        env.now = now
    return env


def figures(ctx, mode, n):
    if mode == "close":
        vals = [ctx.real("f%d" % k, -1e-13, 1e-13) for k in range(n + 1)]
        return vals
    vals = [ctx.real("f%d" % k, -100, 100) for k in range(n + 1)]
    if mode in ("chain", "points"):
        for k in range(1, n + 1):
            ctx.assume(vals[k] <= vals[k - 1] - 1e-3 if k in (1, 2, 4, 5) else vals[k] >= vals[k - 1] + 1e-3)
    return vals


def both(ctx, d1, d2, mode, skip=()):
    n = d1["algorithm_settings"].get("max_eval_total", 5)
    n = min(n, 10)
    vals = figures(ctx, mode, n)
    points = [ctx.real("p%d" % k, -3, 3) for k in range(8)] if mode == "points" else None
    outs = []
    for d in (d1, d2):
        world(ctx, mode)
        d = d() if callable(d) else d
        for p in d.pop("files", ()):
            ENV().vfs[p] = {"kind": "text", "text": ""}
        o = One(ctx, d, vals, points, mode).go()
        r = outcome(o)
        r["options"], r["files"] = [], {}
        outs.append((r, o, o.run.saved_best()))
    (x, o1, s1), (y, o2, s2) = outs
    compare(ctx, x, y)
    same_data(ctx, o1.options, o2.options, "same-search")
    for c1, c2 in zip(o1.f.calls, o2.f.calls):
        ctx.check([len(p) for p in c1["pulses"] + c1["timegrids"]] == [len(p) for p in c2["pulses"] + c2["timegrids"]], "same-requests", "shapes")
        eq(ctx, [v for p in c1["timegrids"] for v in p], [v for p in c2["timegrids"] for v in p], "same-requests", 1e-7, "time grids")
    if s1 is not None and s2 is not None:
        s1, s2 = [{k: v for k, v in s.items() if k not in skip} for s in (s1, s2)]
        same_data(ctx, s1, s2, "same-result")
    ctx.check((s1 is None) == (s2 is None), "same-result", "saved controls")
    ctx.check(len(o1.f.calls) > 1, "same-length", "evaluations")


def default(ctx, cfg):
    name, b, path, key, value = DEF[cfg["i"]]
    setup(ctx)
    d1, mode = base(ctx, b)
    if key == "bins_number":
        for n in ("initial_guess", "scaling_function"):
            d1["pulses"][0].pop(n, None)
    if key in ("max_eval_total", ):
        # without a budget the search itself has to come to an end
        d1["algorithm_settings"]["dsm_settings"]["stopping_criteria"]["max_eval"] = 5
    d2 = copy.deepcopy(d1)
    if value == "time":
        # the name that joins a pulse to its time: given on both sides, or left out on both or one of them
        for d in (d1, d2):
            d["pulses"][0]["time_name"] = d["times"][0]["time_name"] = "time"
        for e in [d2["pulses"][0], d2["times"][0]] if key == "time" else [at(d2, path)]:
            e.pop("time_name")
    else:
        at(d1, path)[key] = copy.deepcopy(value)
        at(d2, path).pop(key, None)
    both(ctx, d1, d2, mode)


def walk(v, f):
    v = {k: walk(x, f) for k, x in v.items()} if isinstance(v, dict) else [walk(x, f) for x in v] if isinstance(v, list) else v
    return f(v)


ORDERED = ("pulses", "parameters")


def form(ctx, cfg):
    setup(ctx)
    b, f = cfg["base"], cfg["form"]
    d1, mode = base(ctx, b)
    d2 = copy.deepcopy(d1)
    tmp = None
    try:
        if f == "extra":
            d2 = dict({"_comment": "anything", "comment": 5}, **d2)
            d2["notes"] = ["free", 1, {"x": None}]
        elif f == "reversed":
            d2 = walk(d2, lambda v: dict(reversed(list(v.items()))) if isinstance(v, dict) else v)
        elif f == "tuples":
            for k in ("pulses", "parameters", "times"):
                d2[k] = tuple(d2[k])
            lists(ctx, d1, d2, tuple)
        elif f == "arrays":
            lists(ctx, d1, d2, lambda x: arr(ctx, x))
        elif f == "ints":
            d2 = walk(d2, lambda v: int(v) if isinstance(v, float) and v == int(v) and abs(v) < 1e6 else v)
        elif f == "floats":
            for k in ("pulses", "parameters", "times"):
                for e in d2[k]:
                    for n in ("lower_limit", "upper_limit", "initial_value", "amplitude_variation"):
                        if n in e:
                            e[n] = np.float64(e[n])
        elif f == "json":
            text, p = json.dumps(d2, indent=2), "/work/settings_%s.json" % b

            def read():
                ENV().vfs[p] = {"kind": "text", "text": text}
                r = q("quocslib.utils.inputoutput").readjson(p)
                del ENV().vfs[p]
                return r
            d2 = read
        elif f == "times":
            d2["times"] = [time_dict("unused", 9.0)] + list(reversed(d2["times"])) + [time_dict("another", 0.5)]
        elif f == "limits":
            # of pulses: given in either order
            for p in d2["pulses"]:
                p["lower_limit"], p["upper_limit"] = p["upper_limit"], p["lower_limit"]
        elif f in ("module", "attribute"):
            by_class(d2, f)
        else:
            tmp = tempfile.mkdtemp(prefix="c27_")
            functions(ctx, d2, f, tmp)
        both(ctx, d1, d2, mode, ("time_names", ) if f == "times" else ())
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def lists(ctx, d1, d2, conv_):
    """list valued settings"""
    for d, g in ((d1, list), (d2, conv_)):
        for p in d["pulses"]:
            n = p["bins_number"]
            p["initial_guess"] = {"function_type": "list_function", "list_function": g([0.25 * k - 0.5 for k in range(n)])}
            p["scaling_function"] = {"function_type": "list_function", "list_function": g([1.0 - 0.25 * k for k in range(n)])}
        if g is not list:
            for p in d["pulses"]:
                if isinstance(g([0.0]), tuple):
                    p["shaping_options"] = tuple(SHAPING)


def by_class(d, how):
    alg = d["algorithm_settings"]
    n = alg["algorithm_name"]

    def put(e, name, prefix, module, cls):
        e.pop(name, None)
        if how == "module":
            e[prefix + "_module"], e[prefix + "_class"] = module, cls
        else:
            e[prefix + "_attribute"] = getattr(q(module), cls)
    put(alg, "algorithm_name", "algorithm", "quocslib.optimizationalgorithms.%sAlgorithm" % n, n + "Algorithm")
    if "dsm_settings" in alg and how == "module":
        g = alg["dsm_settings"]["general_settings"]
        m = g.pop("dsm_algorithm_name")
        g["dsm_algorithm_module"], g["dsm_algorithm_class"] = "quocslib.gradientfreemethods." + m, m
    for p in d["pulses"]:
        k = p["basis"]["basis_name"]
        put(p["basis"], "basis_name", "basis", MOD + k, k)
        r = p["basis"].get("random_super_parameter_distribution")
        if r:
            put(r, "distribution_name", "distribution", "quocslib.pulses.superparameter.Uniform", "Uniform")


def functions(ctx, d, f, tmp):
    """guess and scaling of the base settings in another form"""
    p = d["pulses"][0]
    T = d["times"][0]["initial_value"]
    ts = [T * i / (p["bins_number"] - 1) for i in range(p["bins_number"])]
    if f == "list":
        p["initial_guess"] = {"function_type": "list_function", "list_function": [0.5 - 0.25 * t for t in ts]}
        p["scaling_function"] = {"function_type": "list_function", "list_function": [0.5 + t for t in ts]}
        return
    path = os.path.join(tmp, "my_functions.py")
    with open(path, "w") as fh:
        fh.write("import numpy as np\n\n\ndef zero(t):\n    return 7.0 + np.cos(t)\n\n\ndef guess(t):\n    return 0.5 - 0.25 * t\n\n\n"
                 "def shape(t):\n    return 0.5 + t\n\n\ndef shape_p(t, pulse):\n    return (0.5 + t) * pulse\n")
    give = path
    mode = "absolute"
    if f == "file":
        give = path[:-3]
    if f == "file-relative":
        give, mode = os.path.relpath(path[:-3], "/vfs"), "relative"
    e = "_p" if f == "file-pulse" else ""
    p["initial_guess"] = {"function_type": "python_file", "file_path": give, "function_name": "guess", "path_mode": mode}
    p["scaling_function"] = {"function_type": "python_file", "file_path": give, "function_name": "shape" + e, "path_mode": mode}
    d["files"] = [path]


HARNESS = {"default": default, "form": form}
