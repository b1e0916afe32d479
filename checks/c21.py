"""C21 the AD flavour of the controls"""
from .common import *

BOUNDS = ("1-3 pulses of 2-4 bins in 14 mixtures of the bases, 0-2 parameters, guess and scaling as lists or functions of time, both limits, final "
          "times, three search vectors symbolic; two super-iterations; clipping and shrinking; "
          "4-5 pulses with up to 4 parameters, one pulse of 12 bins with 11 parameters")
OUTSIDE = "more than 12 bins, rounding of single precision (tolerance 1e-5 relative), more than 5 pulses"
EXPECT = ["pulses", "grids", "parameters", "padding", "final", "start"]
BUDGET = {"quick": 120, "thorough": 500}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, kinds, bins, **k):
        r.append(dict({"name": name, "h": "run", "kinds": kinds, "bins": bins, "pars": 0, "ad": True}, **k))
    P, F = "PiecewiseBasis", "Fourier"
    add("p3", [P], [3])
    add("p3-guess", [P], [3], guess="list")
    add("p3-guess-fun", [P], [3], guess="fun")
    add("p3-scale", [P], [3], guess="list", scale="list")
    add("p3-scale-fun", [P], [3], guess="list", scale="fun")
    add("p2-shrink", [P], [2], shrink=True)
    add("p2-shrink-guess", [P], [2], shrink=True, guess="zero")
    add("p3-shrink", [P], [3], shrink=True)
    add("p3-wide", [P], [3], wide=True, guess="list")
    add("pp", [P, P], [3, 2], pars=1)
    add("pp-own", [P, P], [2, 4], pars=2, own=True, guess="list")
    add("ppp", [P, P, P], [2, 4, 3], pars=1, own=True)
    add("par", [], [], pars=2)
    add("par1", [], [], pars=1)
    for k in ("Fourier", "Chebyshev", "Sinc", "Sigmoid"):
        add("b-" + k, [k], [3], sel=1)
        add("b2-" + k, [k], [3], sel=2, guess="list")
    add("fp", [F, P], [3, 4], sel=2, pars=1)
    add("pf", [P, F], [2, 3], sel=2, pars=1, own=True, guess="list")
    add("ff", [F, F], [3, 3], sel=2)
    add("order", [P], [3], guess="list", scale="list", shaping=["add_base_pulse", "add_new_update_pulse", "scale_pulse", "add_initial_guess", "limit_pulse"])
    add("over", [P], [3], guess="list", over=True)
    add("pppp", [P] * 4, [3, 5, 2, 4], pars=3, own=True, guess="list")
    add("five", [F, P, F, P, "Sinc"], [2, 3, 4, 2, 3], sel=2, pars=4, own=True)
    add("ffff", [F] * 4, [3] * 4, sel=4, pars=1)
    add("p12", [P], [12], guess="fun", scale="fun", pars=11)
    if th:
        add("pfp", [P, F, P], [4, 3, 2], sel=2, pars=2, own=True, guess="list", scale="list")
        add("fc", [F, "Chebyshev"], [4, 3], sel=2, pars=1)
        add("p3-shrink-guess", [P], [3], shrink=True, guess="list")
    return r


def run(ctx, cfg):
    env = setup(ctx)
    ks, bins, n = cfg["kinds"], cfg["bins"], len(cfg["kinds"])
    times = [ctx.real("T%d" % i, 0.5, 4) for i in range(n if cfg.get("own") else 1)]
    lims = [(ctx.real("lo%d" % i, -6, -0.5), ctx.real("hi%d" % i, 0.5, 6)) if not cfg.get("wide") else (-1e3, 1e3) for i in range(n)]
    gs = [reals(ctx, "g%d_" % i, b, -0.5, 0.5) for i, b in enumerate(bins)]
    ss = [reals(ctx, "s%d_" % i, b, -2, 2) for i, b in enumerate(bins)]
    pv = reals(ctx, "v", cfg["pars"], -1, 1)

    def build(ad):
        ps = []
        for i, (k, b) in enumerate(zip(ks, bins)):
            kw = {}
            if cfg.get("guess") == "list":
                kw["guess"] = listf(ctx, gs[i])
            elif cfg.get("guess") == "zero":
                kw["guess"] = listf(ctx, [0.0] * b)
            elif cfg.get("guess") == "fun":
                kw["guess"] = lamf("lambda t: 0.25 + 0.125*t")
            if cfg.get("scale") == "list":
                kw["scaling"] = listf(ctx, ss[i])
            elif cfg.get("scale") == "fun":
                kw["scaling"] = lamf("lambda t: 1.0 - 0.25*t")
            if cfg.get("shaping"):
                kw["shaping_options"] = list(cfg["shaping"])
            if cfg.get("over"):
                kw["overwrite_base_pulse"] = True
            ps.append(pulse_dict("P%d" % i, k, bins=b, time_name="t%d" % (i if cfg.get("own") else 0), lower=lims[i][0], upper=lims[i][1],
                                 var=0.5, nv=1, shrink_ampl_lim=cfg.get("shrink", False),
                                 basis_kw={"sigma": 0.125, "offset": 0.25} if k == "Sigmoid" else None, **kw))
        draws(env)
        return controls(ps, [time_dict("t%d" % i, t) for i, t in enumerate(times)],
                        [par_dict("q%d" % i, pv[i], -1.5, 1.5, 0.5) for i in range(cfg["pars"])], is_AD=ad)
    a, b = build(False), build(True)
    top = max(bins) if bins else 0
    dim = a.get_control_parameters_number()
    ctx.check(b.get_control_parameters_number() == dim, "start")
    for rnd in range(max(cfg.get("sel", 0), 1) + 1):
        if cfg.get("sel") and rnd < cfg["sel"]:
            draws(env, rnd)
            a.select_basis()
            draws(env, rnd)
            b.select_basis()
        eq(ctx, cells(b.get_mean_value()), cells(a.get_mean_value()), "start", 1e-6)
        eq(ctx, cells(b.get_sigma_variation()), cells(a.get_sigma_variation()), "start", 1e-6)
        x = reals(ctx, "x%d_" % rnd, dim, -3, 3)
        pa, ta, qa = a.get_controls_lists(arr(ctx, x))
        for final in (False, True):
            pb, tb, qb = b.get_final_controls_lists(arr(ctx, x)) if final else b.get_controls_lists(arr(ctx, x, rnd != 1))
            ctx.check(tuple(pb.shape) == (n, top) and tuple(tb.shape) == (n, top) and tuple(qb.shape) == (cfg["pars"], ), "padding")
            for i in range(n):
                row, grid = cells(pb[i]), cells(tb[i])
                lab = ("final", "final") if final else ("pulses", "grids")
                eq(ctx, [re_(v) for v in row[:bins[i]]], cells(pa[i]), lab[0], 1e-6)
                eq(ctx, [re_(v) for v in grid[:bins[i]]], cells(ta[i]), lab[1], 1e-6)
                eq(ctx, [re_(v) for v in row[bins[i]:] + grid[bins[i]:]], [0.0] * (2 * (top - bins[i])), "padding", 1e-9)
                eq(ctx, [im_(v) for v in row + grid], [0.0] * (2 * top), lab[0], 1e-9)
            eq(ctx, [re_(v) for v in cells(qb)] if cfg["pars"] else [], [re_(v) for q_ in qa for v in cells(q_)], "final" if final else "parameters", 1e-6)
        a.update_base_controls(arr(ctx, x))
        b.update_base_controls(arr(ctx, x))


def draws(env, k=0):
    const_draws(env, [0.3125, 0.625, 0.875] if k == 0 else [0.125, 0.4375, 0.75])


HARNESS = {"run": run}
