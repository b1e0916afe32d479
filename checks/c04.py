"""C04 every control owns its own slice of the search vector"""
from .common import *

BOUNDS = ("up to 3 pulses and 4 parameters in 17 arrangements of the bases, 2-3 bins, 1-2 basis vectors; the whole search vector "
          "symbolic in [-4, 4], piecewise amplitudes, start values and spreads symbolic; before and after (repeated) basis selection, "
          "numpy and AD flavour; "
          "up to 11 pulses, 13 parameters, 6 basis vectors and 5 selections of the basis in selected arrangements")
OUTSIDE = "larger arrangements in every combination of the bases, more than 3 bins"
EXPECT = ["slice", "total", "start-vector", "spread-vector", "parameter-slice", "base-slice"]
BUDGET = {"quick": 120, "thorough": 600}


def configs(tier):
    mixes = [(["PiecewiseBasis"], 0), (["PiecewiseBasis"], 2), ([], 2), (["Fourier"], 1), (["PiecewiseBasis", "PiecewiseBasis"], 1),
             (["Fourier", "PiecewiseBasis"], 1), (["PiecewiseBasis", "Fourier"], 2), (["Fourier", "Chebyshev", "PiecewiseBasis"], 1),
             (["Fourier", "Fourier"], 0), (["Sinc", "Fourier"], 1), (["PiecewiseBasis", "Sinc", "Fourier"], 2),
             (["Sigmoid", "PiecewiseBasis"], 1), (["SigmoidTimeDep", "Fourier"], 1), (["Fourier", "SigmoidSigmas"], 1),
             (["SigmoidAllParas", "PiecewiseBasis"], 2), ([], 4), (["PiecewiseBasis"], 4)]
    many = [(["Fourier"] * 5, 2, 1), (["PiecewiseBasis"] * 4, 11, 1), (["Fourier", "PiecewiseBasis", "Sinc", "PiecewiseBasis", "Fourier"], 3, 2),
            ([], 13, 1), (["Fourier"], 1, 6), (["PiecewiseBasis", "Chebyshev", "Fourier"], 0, 5), (["Fourier"] * 11, 1, 1)]
    r = []
    for i, (ks, np_) in enumerate(mixes):
        for sel in (0, 2) if ks else (0, ):
            r.append({"name": "mix%d-sel%d" % (i, sel), "h": "mix", "kinds": ks, "pars": np_, "sel": sel, "nv": 2 if i % 3 == 0 else 1,
                      "fork_ite": any(k.startswith("Sig") for k in ks)})
    for i, (ks, np_, nv) in enumerate(many):
        for sel in (0, 2, 5) if ks and i < 3 else (2, ) if ks else (0, ):
            r.append({"name": "many%d-sel%d" % (i, sel), "h": "mix", "kinds": ks, "pars": np_, "sel": sel, "nv": nv, "fork_ite": False})
    for ks, np_ in ((["PiecewiseBasis"], 1), (["PiecewiseBasis", "PiecewiseBasis"], 2), ([], 2)):
        r.append({"name": "ad-%d-%d" % (len(ks), np_), "h": "mix", "kinds": ks, "pars": np_, "sel": 0, "nv": 1, "ad": True})
    return r


KW = {"SigmoidTimeDep": {"sigma": 0.125, "offset": 0.25, "tau_variation": 0.5}, "SigmoidSigmas": {"sigma": 0.125, "offset": 0.25},
      "Sigmoid": {"sigma": 0.125, "offset": 0.25}, "SigmoidAllParas": {"sigma": 0.125, "offset": 0.25, "tau_variation": 0.5}}


def vector(ctx, name, ks, num, n):
    """the search vector; the width entries of SigmoidSigmas stay below the value (an odd number) at which a sigmoid whose
    centre sits at the edge gets width 0 and the basis divides by it"""
    r, ends = [], [sum(num[:i + 1]) for i in range(len(ks))]
    for i in range(n):
        k = next((j for j, e in enumerate(ends) if i < e), None)
        w = k is not None and ks[k] == "SigmoidSigmas" and i >= ends[k] - (num[k] - 1) // 2
        r.append(ctx.real("%s%d" % (name, i), -0.9 if w else -4, 0.9 if w else 4))
    return r


def mix(ctx, cfg):
    env = setup(ctx)
    ad = cfg.get("ad", False)
    draws = {"n": 0}

    def draw(gen, kind, k):
        draws["n"] += 1
        return ((draws["n"] * 7) % 16) / 16.0
    env.gen_draw = draw
    ks = cfg["kinds"]
    var = [ctx.real("var%d" % i, 0.1, 2) for i in range(len(ks))]
    bins = [2 + (i % 2) for i in range(len(ks))]
    times = [time_dict("t%d" % i, 1.0 + i) for i in range(len(ks))]
    pds = [lambda i=i, k=k: pulse_dict("p%d" % i, k, bins=bins[i], time_name="t%d" % i, lower=-100.0, upper=100.0,
                                  var=0.5 if k.startswith("Sigm") else var[i], nv=cfg["nv"], basis_kw=dict(KW.get(k, {})))
           for i, k in enumerate(ks)]
    pv = reals(ctx, "pv", cfg["pars"], -1, 1)
    pvar = [ctx.real("pvar%d" % i, 0.1, 2) for i in range(cfg["pars"])]
    prs = [par_dict("q%d" % i, pv[i], -50.0, 50.0, pvar[i]) for i in range(cfg["pars"])]
    c = controls([p() for p in pds], times[::-1], [dict(p) for p in prs], is_AD=ad)
    for _ in range(cfg["sel"]):
        c.select_basis()
    # the same controls, one by one
    solo = []
    ws = iter(c.get_random_super_parameter()) if cfg["sel"] else iter(())
    for i, k in enumerate(ks):
        s = controls([pds[i]()], [times[i]], [], is_AD=ad)
        if k in CHOPPED and cfg["sel"]:
            w = next(ws)
            d = s.pulse_objs_list[0].super_parameter_distribution_obj
            for j, v in enumerate(w):
                d.w[j] = v
        solo.append(s)
    num = [s.get_control_parameters_number() for s in solo]
    n = sum(num) + cfg["pars"]
    ctx.check(c.get_control_parameters_number() == n, "total")
    mean, sig = cells(c.get_mean_value()), cells(c.get_sigma_variation())
    wm = [v for s in solo for v in cells(s.get_mean_value())] + pv
    wsig = [v for s in solo for v in cells(s.get_sigma_variation())] + pvar
    eq(ctx, mean, wm, "start-vector", 1e-9)
    eq(ctx, sig, wsig, "spread-vector", 1e-9)
    for i, k in enumerate(ks):
        if k == "PiecewiseBasis":
            o = sum(num[:i])
            eq(ctx, sig[o:o + num[i]], [var[i]] * num[i], "spread-vector", 1e-9)
    for rnd in range(2):
        x = vector(ctx, "x%d_" % rnd, ks, num, n)
        xa = arr(ctx, x, ad)
        ps, ts, pr = c.get_controls_lists(xa)
        ctx.check(len(ps) == len(ks) and len(ts) == len(ks), "total")
        o = 0
        tol = 1e-4 if ad else 1e-9
        for i, s in enumerate(solo):
            part = x[o:o + num[i]]
            o += num[i]
            p1, t1, _ = s.get_controls_lists(arr(ctx, part, ad))
            eq(ctx, [re_(v) for v in cells(ps[i])][:bins[i]], [re_(v) for v in cells(p1[0])], "slice", tol)
            eq(ctx, [re_(v) for v in cells(ts[i])][:bins[i]], [re_(v) for v in cells(t1[0])], "slice", tol)
            if ks[i] == "PiecewiseBasis" and rnd == 0:
                eq(ctx, [re_(v) for v in cells(ps[i])][:bins[i]], part, "slice", tol)
        got = [re_(v) for v in (cells(pr) if ad else pr)]
        eq(ctx, got, x[o:], "parameter-slice", tol)
        if rnd == 0:
            xb = vector(ctx, "xb", ks, num, n)
            # (sigmoids: the case distinctions of one vector are enough)
            x = x[:sum(num)] + xb[sum(num):] if cfg.get("fork_ite") else xb
            c.update_base_controls(arr(ctx, x))
            for j, po in enumerate(c.parameter_objs_list):
                eq(ctx, [po.value], [x[sum(num) + j]], "parameter-slice", tol)
            bare = c.get_bare_controls_lists(arr(ctx, x)) if not ad else None
            o = 0
            for i, s in enumerate(solo):
                s.update_base_controls(arr(ctx, x[o:o + num[i]]))
                eq(ctx, [re_(v) for v in cells(c.pulse_objs_list[i].base_pulse)],
                   [re_(v) for v in cells(s.pulse_objs_list[0].base_pulse)], "base-slice", tol)
                if bare is not None:
                    eq(ctx, cells(bare[i]), cells(s.pulse_objs_list[0].base_pulse), "base-slice", tol)
                o += num[i]


HARNESS = {"mix": mix}
