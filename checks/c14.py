"""C14 a seeded run is reproducible"""
from .alg import *

BOUNDS = ("dCRAB (Nelder-Mead, CMA-ES, 1-2 super-iterations, chopped and piecewise bases, parameters, re-evaluation), DirectSearch, "
          "GRAPE, AD; two runs with the same seed in fresh environments: draws of a seeded generator are fixed numbers per (seed, "
          "index), everything else that is random, and the clock, differs between the two runs; seeds 0, 7 and large, figures of merit symbolic; at most 6 evaluations")
OUTSIDE = "equality of numpy's own streams for equal seeds, non-integer seeds, runs without a seed"
EXPECT = ["same-requests", "same-length", "seed-matters", "same-result"]
BUDGET = {"quick": 120, "thorough": 400}


def configs(tier):
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "dim": 2, "si": 1, "dsm": "NelderMead", "kind": None, "n": 4, "seed": 7, "pars": 0}, **k))
    add("dcrab-nm", alg="dCRAB")
    add("dcrab-nm-seed0", alg="dCRAB", seed=0)
    add("dcrab-fourier", alg="dCRAB", kind="Fourier")
    add("dcrab-fourier-2si", alg="dCRAB", kind="Fourier", si=2, max_eval=3, n=6)
    add("dcrab-par", alg="dCRAB", dim=3, pars=1, n=4)
    add("dcrab-cma", alg="dCRAB", dsm="CMAES", n=5)
    add("dcrab-cma-fourier", alg="dCRAB", dsm="CMAES", kind="Fourier", n=5)
    add("dcrab-cma-2si", alg="dCRAB", dsm="CMAES", si=2, max_eval=4, n=6, big=True)
    add("dcrab-reeval", alg="dCRAB", re=[0.3, 0.5], n=4)
    for k in ("Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas", "SigmoidAllParas"):
        add("dcrab-" + k.lower(), alg="dCRAB", basis=k, n=3, dim=0)
    add("direct-nm", alg="DirectSearch")
    add("direct-nm-seed0", alg="DirectSearch", seed=0)
    add("direct-cma", alg="DirectSearch", dsm="CMAES", n=5)
    add("grape", alg="GRAPE", n=3)
    add("grape-seed0", alg="GRAPE", n=3, seed=0)
    add("dcrab-par4", alg="dCRAB", dim=5, pars=4, n=6, first=1)
    add("direct-nm-5", alg="DirectSearch", dim=5, n=6, first=1)
    add("dcrab-two-fourier", alg="dCRAB", two="Fourier", n=3)
    add("dcrab-two-sinc", alg="dCRAB", two="Sinc", n=3, seed=0)
    add("ad-two-fourier", alg="AD", two="Fourier", n=3)
    add("ad-2si", alg="AD", n=6, si=2, kind="Fourier")
    add("ad", alg="AD", n=3)
    add("ad-seed0", alg="AD", n=3, seed=0)
    add("ad-fourier", alg="AD", n=3, kind="Fourier")
    return r


def once(ctx, cfg, which, vals, table):
    env = setup(ctx)

    def draw(gen, kind, k):
        key = ("s%s" % gen.seed if gen.seed is not None and gen.seed != "global" else "g%d" % which, kind, k)
        if key not in table:
            # away from the values where the random direction vanishes
            table[key] = round(0.3 + 0.7 * (((len(table) + 1) * 0.6180339887) % 1.0), 4)
        return table[key]
    env.gen_draw = draw

    def draw_int(gen, lo, hi):
        if hi is None:
            lo, hi = 0, lo
        return int(lo + (which * 31 + 17) % max(1, hi - lo))
    env.gen_int = draw_int
    env.clock = 1000.0 + 777.0 * which
    alg = cfg["alg"]
    kw = {}
    if alg in ("dCRAB", "DirectSearch"):
        kw["general"] = {"population": 4}
        kw["stop"] = {"max_eval": cfg.get("max_eval", 100)}
        kw["dsm"] = cfg["dsm"]
    if alg in ("dCRAB", "AD"):
        kw["super_iteration_number"] = cfg["si"]
    if "re" in cfg:
        kw["re_evaluation"] = {"re_evaluation_steps": cfg["re"]}
    kw["random_number_generator"] = {"seed_number": cfg["seed"]}
    d = small(alg, max(cfg["dim"], 1), kind=cfg["kind"], pars=cfg["pars"], max_eval_total=cfg["n"], **kw)
    if "basis" in cfg:
        d["pulses"] = [pulse_dict("A", cfg["basis"], bins=3, time_name="t", lower=-5.0, upper=5.0, var=0.5, nv=1)]
    if "two" in cfg:
        d["pulses"] = [pulse_dict(x, cfg["two"], bins=3, time_name="t", lower=-5.0, upper=5.0, var=0.5, nv=2) for x in "AB"]
    f = FoM(ctx, value=lambda k, c: vals[k], cap=cfg["n"] + 2, std=(lambda k: 0.25) if "re" in cfg else None)
    run_ = Run(ctx, d, f)
    if alg in ("GRAPE", "AD"):
        env.minimize = fun_minimize(ctx, lambda x0: [x0, [v + 0.125 for v in x0], [v - 0.25 for v in x0]])
    run_.go()
    return run_, f


def run(ctx, cfg):
    vals = [ctx.real("f%d" % i, -100, 100) for i in range(cfg["n"] + 2)]
    if cfg["dsm"] == "CMAES" and cfg.get("big"):
        vals[:4] = [4.0, 1.0, 3.0, 2.0]
    if cfg.get("first"):
        # only the start simplex is of interest
        vals = [1.0 + i for i in range(len(vals) - 2)] + vals[-2:]
    table = {}
    a, fa = once(ctx, cfg, 0, vals, table)
    b, fb = once(ctx, cfg, 1, vals, table)
    ctx.check(len(fa.calls) == len(fb.calls), "same-length")
    for x, y in zip(fa.calls, fb.calls):
        eq(ctx, flat(x), flat(y), "same-requests", 1e-9)
    eq(ctx, [a.alg.best_FoM], [b.alg.best_FoM], "same-result", 1e-9)
    # at least one draw was made, and none from a source that is not seeded decided anything
    ctx.check(any(k[0] == "s%s" % cfg["seed"] for k in table), "seed-matters")


HARNESS = {"run": run}
