"""C02 composition of the delivered pulse from guess, base pulse, update, scaling and limits"""
import os
import shutil
import tempfile

from .common import *

BOUNDS = ("1-2 pulses of 2-3 bins, piecewise and Fourier basis, update coefficients, guess and scaling lists symbolic reals in "
          "[-10, 10], limits symbolic (lower <= upper), 0-3 earlier base updates, 16 orders/subsets of the five shaping steps, "
          "guess and scaling given as list, one-argument expression, two-argument expression or function in a python file; "
          "arrangements of 4-5 pulses with 2-3 updates and a new basis after each, one pulse of 12 bins with 7 updates")
OUTSIDE = "custom shaping callables, expressions other than the listed ones, more than 12 bins, shrink limiting inside sums (C01)"
EXPECT = ["composition", "repeatable", "base-sum", "bare-update", "user-data-untouched", "time-grid"]
BUDGET = {"quick": 200, "thorough": 700}

STEPS = ["add_initial_guess", "add_base_pulse", "add_new_update_pulse", "scale_pulse", "limit_pulse"]
ORDERS = [None, [0, 1, 2], [2, 4, 3], [0, 2, 4, 1], [4, 0, 1, 2], [3, 0, 1, 2, 4], [2, 1, 0, 4, 3], [1, 2, 3, 0, 4], [2], [0],
          [1, 1, 2], [0, 1, 2, 4, 3], [2, 3, 0, 1, 4], [0, 1, 3, 2, 4], [3, 2], [1, 0, 3]]


def configs(tier):
    r = []
    q_ = tier == "quick"
    for i, o in enumerate(ORDERS):
        r.append({"name": "order%d" % i, "h": "compose", "order": o, "guess": "list", "scale": "list", "bins": 2, "updates": 1 + (i % 2),
                  "over": False, "kind": "PiecewiseBasis"})
    for g in ("none", "list", "lambda", "file"):
        for s in ("none", "list", "lambda", "lambda2", "file"):
            r.append({"name": "src-%s-%s" % (g, s), "h": "compose", "order": None, "guess": g, "scale": s, "bins": 2 if q_ else 3,
                      "updates": 1, "over": False, "kind": "PiecewiseBasis"})
    for over in (False, True):
        for u in (0, 2, 3):
            r.append({"name": "base%d%s" % (u, "-over" if over else ""), "h": "compose", "order": None, "guess": "list",
                      "scale": "list", "bins": 2, "updates": u, "over": over, "kind": "PiecewiseBasis"})
    for u in (0, 2):
        r.append({"name": "fourier%d" % u, "h": "compose", "order": None, "guess": "lambda", "scale": "lambda", "bins": 3,
                  "updates": u, "over": False, "kind": "Fourier"})
    r.append({"name": "two-pulses", "h": "two", "updates": 2})
    r.append({"name": "four-pulses", "h": "many", "kinds": ["PiecewiseBasis", "Fourier", "PiecewiseBasis", "PiecewiseBasis"], "bins": [2, 3, 4, 3], "updates": 2})
    r.append({"name": "five-pulses", "h": "many", "kinds": ["Fourier", "PiecewiseBasis", "Fourier", "PiecewiseBasis", "Fourier"], "bins": [3, 2, 2, 3, 3], "updates": 3})
    r.append({"name": "long-pulse", "h": "many", "kinds": ["PiecewiseBasis"], "bins": [12], "updates": 7})
    r.append({"name": "long-fourier", "h": "many", "kinds": ["Fourier"], "bins": [7], "updates": 6})
    for g in ("none", "list", "lambda"):
        r.append({"name": "ad-" + g, "h": "compose", "order": None, "guess": g, "scale": "list" if g == "list" else "lambda", "bins": 2,
                  "updates": 1, "over": False, "kind": "PiecewiseBasis", "ad": True})
    return r


def source(ctx, kind, what, vals):
    """-> dictionary entry, reference function(times, pulse) -> list"""
    if kind == "none":
        return None, (lambda t, p: [0.0] * len(t)) if what == "guess" else (lambda t, p: list(p))
    if kind == "list":
        d = listf(ctx, vals)
        ref = (lambda t, p: list(vals)) if what == "guess" else (lambda t, p: [a * b for a, b in zip(vals, p)])
        return d, ref
    if kind == "lambda2":
        return lamf("lambda t, p: 0.5*p + 0.25*t*p*p - 0.125"), lambda t, p: [0.5 * a + 0.25 * x * a * a - 0.125 for x, a in zip(t, p)]
    f = (lambda x: 1.5 - 2.0 * x) if what == "guess" else (lambda x: 0.25 + 0.5 * x)
    ref = (lambda t, p: [f(x) for x in t]) if what == "guess" else (lambda t, p: [f(x) * a for x, a in zip(t, p)])
    text = "1.5 - 2.0*t" if what == "guess" else "0.25 + 0.5*t"
    if kind == "lambda":
        return lamf("lambda t: " + text), ref
    d = tempfile.mkdtemp(prefix="c02_")
    p = os.path.join(d, "user_%s.py" % what)
    with open(p, "w") as fh:
        fh.write("def other(t):\n    return 77.0 + t\n\n\ndef wanted(t):\n    return %s\n" % text)
    ENV().vfs[p] = {"kind": "text", "text": ""}
    ENV().dirs_to_remove = getattr(ENV(), "dirs_to_remove", []) + [d]
    return {"function_type": "python_file", "file_path": p, "function_name": "wanted", "path_mode": "absolute"}, ref


def shape(ctx, order, guess, base, upd, scale, t, lo, hi):
    n = len(upd)
    p = [0.0] * n
    for o in (order if order is not None else [0, 1, 2, 3, 4]):
        if o == 0:
            p = [a + b for a, b in zip(p, clip(ctx, guess(t, p), lo, hi))]
        elif o == 1:
            p = [a + b for a, b in zip(p, base)]
        elif o == 2:
            p = [a + b for a, b in zip(p, upd)]
        elif o == 3:
            p = scale(t, p)
        else:
            p = clip(ctx, p, lo, hi)
    return p


def compose(ctx, cfg):
    env = setup(ctx)
    try:
        _compose(ctx, cfg, env)
    finally:
        for d in getattr(env, "dirs_to_remove", []):
            shutil.rmtree(d, ignore_errors=True)


def _compose(ctx, cfg, env):
    n, ad = cfg["bins"], cfg.get("ad", False)
    lo = ctx.real("lo", -3, 3)
    hi = ctx.real("hi", -3, 3)
    ctx.assume(lo <= hi)
    T = 1.5
    gv, sv = reals(ctx, "g", n), reals(ctx, "s", n, -2, 2)
    gd, gref = source(ctx, cfg["guess"], "guess", gv)
    sd, sref = source(ctx, cfg["scale"], "scale", sv)
    d = pulse_dict(kind=cfg["kind"], bins=n, lower=lo, upper=hi, guess=gd, scaling=sd, time_name="T",
                   overwrite_base_pulse=cfg["over"])
    if cfg["order"] is not None:
        d["shaping_options"] = [STEPS[o] for o in cfg["order"]]
    c = controls([d], [time_dict("T", T)], [], is_AD=ad)
    if cfg["kind"] != "PiecewiseBasis":
        c.select_basis()
    m = c.get_control_parameters_number()
    t = [T * i / (n - 1) for i in range(n)]
    base = [0.0] * n
    if not ad and cfg["updates"] != 1 and cfg["order"] is None:
        z = reals(ctx, "z", m, -4, 4)
        first = cells(c.get_bare_controls_lists(arr(ctx, z))[0])
    else:
        first = None

    def bare(v):
        if cfg["kind"] == "PiecewiseBasis":
            return list(v)
        w = c.get_random_super_parameter()[0][0]
        return [v[0] * fn(ctx, "sin", 2 * math.pi * w * x / T) + v[1] * fn(ctx, "cos", 2 * math.pi * w * x / T) for x in t]

    if first is not None:
        # asked for before anything else
        eq(ctx, first, bare(z), "bare-update", 1e-6)

    def get(v):
        r = c.get_controls_lists(arr(ctx, v, ad))
        return [re_(x) for x in cells(r[0][0])], [re_(x) for x in cells(r[1][0])]
    for k in range(cfg["updates"]):
        xk = reals(ctx, "u%d_" % k, m, -4, 4)
        if k == 0:
            get(xk)
        before = list(xk)
        a = arr(ctx, xk)
        c.update_base_controls(a)
        eq(ctx, cells(a), before, "user-data-untouched")
        b = bare(xk)
        base = b if cfg["over"] else [p + q_ for p, q_ in zip(base, b)]
    eq(ctx, [re_(v) for v in cells(c.pulse_objs_list[0].base_pulse)], base, "base-sum", 1e-5)
    x = reals(ctx, "x", m, -4, 4)
    p, tg = get(x)
    want = shape(ctx, cfg["order"], gref, base, bare(x), sref, t, lo, hi)
    eq(ctx, p, want, "composition", 1e-5)
    eq(ctx, tg, t, "time-grid", 1e-5)
    if not ad:
        eq(ctx, cells(c.get_bare_controls_lists(arr(ctx, x))[0]), bare(x), "bare-update", 1e-6)
    y = reals(ctx, "y", m, -4, 4)
    get(y)
    p2, _ = get(x)
    eq(ctx, p2, p, "repeatable", 1e-6)
    f = c.get_final_controls_lists(arr(ctx, x, ad))
    eq(ctx, [re_(v) for v in cells(f[0][0])], want, "composition", 1e-5)
    if cfg["guess"] == "list" and not ctx.symbolic:
        eq(ctx, list(gd["list_function"]), gv, "user-data-untouched")


def two(ctx, cfg):
    """two pulses with different limits, guesses and times do not leak into each other"""
    setup(ctx)
    lo = [ctx.real("lo%d" % i, -3, 0) for i in range(2)]
    hi = [ctx.real("hi%d" % i, 0, 3) for i in range(2)]
    g = [reals(ctx, "g%d_" % i, 2) for i in range(2)]
    s = reals(ctx, "s", 2, -2, 2)
    ds = [pulse_dict("A", bins=2, lower=lo[0], upper=hi[0], guess=listf(ctx, g[0]), time_name="T1"),
          pulse_dict("B", bins=2, lower=lo[1], upper=hi[1], guess=listf(ctx, g[1]), scaling=listf(ctx, s), time_name="T2")]
    c = controls(ds, [time_dict("T2", 2.0), time_dict("T1", 3.0)], [])
    base = [[0.0, 0.0], [0.0, 0.0]]
    for k in range(cfg["updates"]):
        u = reals(ctx, "u%d_" % k, 4)
        c.update_base_controls(arr(ctx, u))
        for i in range(2):
            base[i] = [a + b for a, b in zip(base[i], u[2 * i:2 * i + 2])]
    x = reals(ctx, "x", 4)
    ps, ts, _ = c.get_controls_lists(arr(ctx, x))
    sc = [lambda t, p: p, lambda t, p: [a * b for a, b in zip(s, p)]]
    for i, T in ((0, 3.0), (1, 2.0)):
        gg = g[i]
        want = shape(ctx, None, lambda t, p: gg, base[i], x[2 * i:2 * i + 2], sc[i], [0.0, T], lo[i], hi[i])
        eq(ctx, cells(ps[i]), want, "composition", 1e-6)
        eq(ctx, cells(ts[i]), [0.0, T], "time-grid", 1e-6)


def many(ctx, cfg):
    """several pulses with their own bases, orders, guesses, scaling functions and times; the basis changes after every update"""
    setup(ctx)
    ks, bins = cfg["kinds"], cfg["bins"]
    n = len(ks)
    T = [1.5 + 0.5 * i for i in range(n)]
    g = [reals(ctx, "g%d_" % i, b, -2, 2) for i, b in enumerate(bins)]
    s = [reals(ctx, "s%d_" % i, b, -2, 2) for i, b in enumerate(bins)]
    orders = [None, [0, 1, 3, 2, 4], None, [1, 2, 0, 4], [2, 3, 1, 0, 4]]
    scale = [None, s[1] if n > 1 else None, None, None, s[-1] if n > 4 else None]
    over = [False, False, n > 2, False, False]
    ds = []
    for i, (k, b) in enumerate(zip(ks, bins)):
        d = pulse_dict("P%d" % i, k, bins=b, lower=-5.0 - i, upper=4.0 + i, guess=listf(ctx, g[i]), time_name="T%d" % i,
                       scaling=listf(ctx, scale[i]) if scale[i] else None, overwrite_base_pulse=over[i])
        if orders[i] is not None:
            d["shaping_options"] = [STEPS[o] for o in orders[i]]
        ds.append(d)
    c = controls(ds, [time_dict("T%d" % i, T[i]) for i in range(n)][::-1], [])
    grids = [[T[i] * k / (b - 1) for k in range(b)] for i, b in enumerate(bins)]
    num = [b if k == "PiecewiseBasis" else 2 for k, b in zip(ks, bins)]
    base = [[0.0] * b for b in bins]

    def bare(x):
        ws, r, o = c.get_random_super_parameter(), [], 0
        ws = iter(ws)
        for k, m, t, tt in zip(ks, num, grids, T):
            v = x[o:o + m]
            o += m
            if k == "PiecewiseBasis":
                r.append(list(v))
            else:
                w = next(ws)[0]
                r.append([v[0] * fn(ctx, "sin", 2 * math.pi * w * u / tt) + v[1] * fn(ctx, "cos", 2 * math.pi * w * u / tt) for u in t])
        return r
    for rnd in range(cfg["updates"] + 1):
        if any(k != "PiecewiseBasis" for k in ks):
            c.select_basis()
        x = reals(ctx, "x%d_" % rnd, sum(num), -4, 4)
        B = bare(x)
        ps, ts, _ = c.get_controls_lists(arr(ctx, x))
        for i in range(n):
            sc = (lambda t, p, v=scale[i]: [a * b for a, b in zip(v, p)]) if scale[i] else (lambda t, p: list(p))
            want = shape(ctx, orders[i], lambda t, p, v=g[i]: list(v), base[i], B[i], sc, grids[i], -5.0 - i, 4.0 + i)
            eq(ctx, cells(ps[i]), want, "composition", 1e-5)
            eq(ctx, cells(ts[i]), grids[i], "time-grid", 1e-6)
        if rnd < cfg["updates"]:
            c.update_base_controls(arr(ctx, x))
            base = [b if o else [p + q_ for p, q_ in zip(a, b)] for a, b, o in zip(base, B, over)]
            for i in range(n):
                eq(ctx, [re_(v) for v in cells(c.pulse_objs_list[i].base_pulse)], base[i], "base-sum", 1e-5)


HARNESS = {"compose": compose, "two": two, "many": many}
