"""C01 amplitude limits of pulses"""
from .common import *

BOUNDS = ("1 pulse of 2-4 bins (all bases of the map except the unfinished Walsh), control vector entries, guess and "
          "scaling list entries and both limits symbolic reals in [-10, 10] (limits in either order), final time symbolic in "
          "[0.5, 4]; 2 scalar parameters with symbolic limits, values and start values; sin/cos/erf/arccos as uninterpreted functions with range and monotonicity axioms; "
          "longer pulses: 12 bins clipped, 5-9 bins shrunk with the order of the samples given; 12 parameters")
OUTSIDE = "longer pulses in every order of their samples, float rounding (reals with tolerance 1e-7), pulses with an empty or custom last shaping step"
EXPECT = ["parameter-clipped", "within-limits", "unchanged-inside", "shrink-affine", "shrink-order", "shrink-not-wider", "clip-exact",
          "kept-extreme"]
BUDGET = {"quick": 200, "thorough": 700}


def configs(tier):
    r = []
    bins = (2, 3, 4)
    for ad in (False, True):
        for shrink in (False, True):
            for b in bins:
                if shrink and ad and b > (2 if tier == "quick" else 3):
                    continue
                r.append({"name": "raw-%s-%d%s" % ("shrink" if shrink else "clip", b, "-ad" if ad else ""), "h": "raw",
                          "bins": b, "shrink": shrink, "ad": ad, "fork_ite": shrink})
            r.append({"name": "full-%s%s" % ("shrink" if shrink else "clip", "-ad" if ad else ""), "h": "full",
                      "shrink": shrink, "ad": ad, "bins": 2})
    for ad in (False, True):
        for upd in (False, True):
            r.append({"name": "par%s%s" % ("-ad" if ad else "", "-update" if upd else ""), "h": "par", "ad": ad, "update": upd})
    for ad in (False, True):
        r.append({"name": "raw-clip-12%s" % ("-ad" if ad else ""), "h": "raw", "bins": 12, "shrink": False, "ad": ad, "fork_ite": False})
        # long pulses whose samples are given in order
        for k, n in enumerate((5, 9) if tier == "thorough" or not ad else (5, )):
            r.append({"name": "raw-shrink-%d%s" % (n, "-ad" if ad else ""), "h": "raw", "bins": n, "shrink": True, "ad": ad, "fork_ite": True, "order": k})
        r.append({"name": "par-many%s" % ("-ad" if ad else ""), "h": "par", "ad": ad, "update": not ad, "n": 12})
    for k in CHOPPED:
        r.append({"name": "basis-" + k, "h": "basis", "kind": k, "shrink": False, "bins": 3, "nv": 1})
        if tier == "thorough":
            r.append({"name": "basis-%s-2" % k, "h": "basis", "kind": k, "shrink": False, "bins": 3, "nv": 2})
            r.append({"name": "basis-%s-shrink" % k, "h": "basis", "kind": k, "shrink": True, "bins": 2, "nv": 1})
    return r


def limits(ctx):
    a, b = ctx.real("limit_a"), ctx.real("limit_b")
    lo, hi = ctx.min(a, b), ctx.max(a, b)
    return a, b, lo, hi


def spec(ctx, x, y, lo, hi, shrink, perm=None):
    """x: pulse before the limiting step, y: what the user receives"""
    for v in y:
        ctx.check(ctx.le(lo, v), "within-limits")
        ctx.check(ctx.le(v, hi), "within-limits")
    inside = ctx.And(*[ctx.And(lo <= v, v <= hi) for v in x])
    ctx.check(ctx.implies(inside, ctx.allclose(x, y)), "unchanged-inside")
    if not shrink:
        ctx.check(ctx.allclose(y, [ctx.max(ctx.min(v, hi), lo) for v in x]), "clip-exact")
        return
    mx, mn = ctx.max(*x), ctx.min(*x)
    out = ctx.Or(mn >= hi, mx <= lo)     # whole pulse beyond a limit: it sits on the limit
    n = len(x)
    for i in range(n):
        for j in range(n):
            if i == j or perm is not None and abs(perm.index(i) - perm.index(j)) != 1:
                continue
            ctx.check(ctx.implies(x[i] <= x[j], ctx.le(y[i], y[j])), "shrink-order")
            ctx.check(ctx.implies(x[i] <= x[j], ctx.le(y[j] - y[i], x[j] - x[i])), "shrink-not-wider")
    if n >= 3:
        for i in range(n - 2 if perm is None or n < 6 else 2):
            ctx.check(ctx.Or(out, ctx.close((y[i] - y[i + 1]) * (x[i + 1] - x[i + 2]),
                                            (y[i + 1] - y[i + 2]) * (x[i] - x[i + 1]), 1e-5)), "shrink-affine")
    my, ny = ctx.max(*y), ctx.min(*y)
    ctx.check(ctx.Or(out, ctx.close(my, ctx.min(mx, hi))), "kept-extreme")
    ctx.check(ctx.Or(out, ctx.close(ny, ctx.max(mn, lo))), "kept-extreme")


def raw(ctx, cfg):
    """piecewise pulse, no guess: the update itself is what has to be limited"""
    setup(ctx)
    a, b, lo, hi = limits(ctx)
    n = cfg["bins"]
    x = reals(ctx, "x", n)
    perm = None
    if "order" in cfg:
        perm = [(k * 4 + cfg["order"] + 1) % n for k in range(n)]
        for u, v in zip(perm, perm[1:]):
            ctx.assume(x[u] + 0.01 <= x[v])
    if cfg["shrink"]:
        # without a guess the pulse enters the limiting step as it is; a zero guess outside the limits is limited too
        ctx.assume(ctx.And(lo <= 0, hi >= 0))
    d = pulse_dict(bins=n, lower=a, upper=b, shrink_ampl_lim=cfg["shrink"],
                   shaping_options=["add_new_update_pulse", "limit_pulse"])
    c = controls([d], [time_dict("T", 1.0)], [], is_AD=cfg["ad"])
    p = c.get_controls_lists(arr(ctx, x, cfg["ad"]))[0][0]
    y = [v.real if cfg["ad"] else v for v in cells(p)]
    spec(ctx, x, y, lo, hi, cfg["shrink"], perm)


def full(ctx, cfg):
    """guess + base + update, scaled, limited: default shaping"""
    setup(ctx)
    a, b, lo, hi = limits(ctx)
    n = cfg["bins"]
    x, g, s = reals(ctx, "x", n), reals(ctx, "g", n), reals(ctx, "s", n, -2, 2)
    kw = {}
    if not cfg["shrink"]:
        kw["scaling"] = listf(ctx, s)
    d = pulse_dict(bins=n, lower=a, upper=b, shrink_ampl_lim=cfg["shrink"], guess=listf(ctx, g), **kw)
    c = controls([d], [time_dict("T", ctx.real("T", 0.5, 4))], [], is_AD=cfg["ad"])
    if cfg["shrink"]:
        ctx.assume(ctx.And(*[ctx.And(lo <= v, v <= hi) for v in g]))
    p = c.get_controls_lists(arr(ctx, x, cfg["ad"]))[0][0]
    y = [v.real if cfg["ad"] else v for v in cells(p)]
    ctx.check(ctx.And(*[ctx.And(ctx.le(lo, v), ctx.le(v, hi)) for v in y]), "within-limits")


def basis(ctx, cfg):
    setup(ctx)
    a, b, lo, hi = limits(ctx)
    n = cfg["bins"]
    d = pulse_dict(kind=cfg["kind"], bins=n, lower=a, upper=b, nv=cfg["nv"], shrink_ampl_lim=cfg["shrink"],
                   guess=lamf("lambda t: 0.3 + 0.1*t"))
    c = controls([d], [time_dict("T", ctx.real("T", 0.5, 4) if cfg["kind"] in ("Fourier", "Sinc", "Sigmoid") else 1.0)], [])
    c.select_basis()
    x = reals(ctx, "x", c.get_control_parameters_number(), -4, 4)
    p = c.get_controls_lists(arr(ctx, x))[0][0]
    ctx.check(len(cells(p)) == n, "bins")
    ctx.check(ctx.And(*[ctx.And(ctx.le(lo, v), ctx.le(v, hi)) for v in cells(p)]), "within-limits")


def par(ctx, cfg):
    """scalar parameters: clipped to their limits, whatever the sign of the limits and of the value"""
    setup(ctx)
    ad = cfg["ad"]
    lims = []
    for i in range(cfg.get("n", 2)):
        lo, hi = ctx.real("lo%d" % i), ctx.real("hi%d" % i)
        ctx.assume(lo <= hi)
        lims.append((lo, hi))
    c = controls([], [time_dict("T", 1.0)], [par_dict("q%d" % i, ctx.real("v%d" % i), lo, hi, 0.5) for i, (lo, hi) in enumerate(lims)],
                 is_AD=ad)
    for rnd in range(2):
        x = reals(ctx, "x%d_" % rnd, len(lims))
        if cfg["update"]:
            c.update_base_controls(arr(ctx, x))
            got = [re_(v) for p in c.parameter_objs_list for v in cells(p.value)]
        else:
            got = [re_(v) for v in cells(c.get_controls_lists(arr(ctx, x, ad))[2])]
        ctx.check(len(got) == len(lims), "parameter-clipped")
        for v, g, (lo, hi) in zip(x, got, lims):
            ctx.check(ctx.And(ctx.le(lo, g), ctx.le(g, hi)), "within-limits")
            ctx.check(ctx.close(g, ctx.max(ctx.min(v, hi), lo)), "parameter-clipped")


HARNESS = {"par": par, "raw": raw, "full": full, "basis": basis}
