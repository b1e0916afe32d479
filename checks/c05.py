"""C05 parameters stay inside their limits, pulses are sampled on their own time"""
from .common import *

BOUNDS = ("1-13 parameters, 1-6 pulses with 2-50 bins, 1-3 times in any order and shared in any way; values, limits (lower <= upper), start values, final "
          "times and the search vectors symbolic, sequences of 3 evaluations and updates; numpy and AD flavour")
OUTSIDE = "the time as an optimised parameter (documented as not supported), more than 50 bins"
EXPECT = ["inside", "clipped", "grid", "own-time", "stateless"]
BUDGET = {"quick": 100, "thorough": 400}


def configs(tier):
    r = []
    for n in (1, 2, 3):
        for ad in (False, True):
            r.append({"name": "par%d%s" % (n, "-ad" if ad else ""), "h": "pars", "n": n, "ad": ad})
    for n in (2, 3, 4, 5) + ((8, 11) if tier == "thorough" else ()):
        r.append({"name": "grid%d" % n, "h": "grid", "bins": n, "np": 1})
    for n in (12, 21, 50):
        r.append({"name": "grid-long%d" % n, "h": "grid", "bins": n, "np": 1})
        r.append({"name": "grid-long%d-ad" % n, "h": "grid", "bins": n, "np": 1, "ad": True})
    for n in (7, 11, 13):
        r.append({"name": "par-many%d" % n, "h": "pars", "n": n, "ad": n == 7})
    r.append({"name": "grid-two", "h": "grid", "bins": 3, "np": 2})
    r.append({"name": "grid-three", "h": "grid", "bins": 2, "np": 3})
    r.append({"name": "grid-ad", "h": "grid", "bins": 3, "np": 2, "ad": True})
    # several pulses on one time, equal and different numbers of samples, unused times
    k = 0
    for assign, bins in (([0, 0], [3, 5]), ([0, 0], [5, 2]), ([0, 1], [4, 4]), ([1, 0], [4, 4]), ([1, 1, 0], [3, 2, 3]), ([0, 1, 0], [3, 3, 4]),
                         ([2, 0, 2], [2, 4, 4]), ([1, 2, 0], [3, 3, 3]), ([0, 0, 0, 0], [3, 3, 3, 3]),
                         ([2, 1, 0, 1, 2], [3, 12, 2, 11, 3]), ([0, 1, 2, 0, 1, 2], [2, 2, 2, 3, 3, 3])):
        for ad in (False, True):
            k += 1
            r.append({"name": "share%d%s" % (k, "-ad" if ad else ""), "h": "share", "assign": assign, "bins": bins, "ad": ad, "names": k % 3})
    return r


def pars(ctx, cfg):
    setup(ctx)
    n, ad = cfg["n"], cfg["ad"]
    lo, hi, v0 = reals(ctx, "lo", n, -5, 5), reals(ctx, "hi", n, -5, 5), reals(ctx, "v", n, -5, 5)
    for i in range(n):
        ctx.assume(ctx.And(lo[i] <= hi[i], lo[i] <= v0[i], v0[i] <= hi[i]))
    d = [par_dict("q%d" % i, v0[i], lo[i], hi[i]) for i in range(n)]
    c = controls([], [], d, is_AD=ad)
    tol = 1e-4 if ad else 1e-12
    eq(ctx, cells(c.get_mean_value()), v0, "stateless", tol)
    for rnd in range(3):
        x = reals(ctx, "x%d_" % rnd, n, -50, 50)
        if rnd == 1:
            c.update_base_controls(arr(ctx, x))
            got = [p.value for p in c.parameter_objs_list]
            eq(ctx, cells(c.get_mean_value()), [ctx.min(ctx.max(a, v), b) for a, v, b in zip(lo, x, hi)], "clipped", tol)
        else:
            ps, ts, got = c.get_controls_lists(arr(ctx, x, ad))
            ctx.check(len(ps) == 0 and len(ts) == 0, "own-time")
        got = [re_(v) for v in cells(got)]
        eq(ctx, got, [ctx.min(ctx.max(a, v), b) for a, v, b in zip(lo, x, hi)], "clipped", tol)
        for a, v, b in zip(lo, got, hi):
            ctx.check(ctx.And(v >= a - tol, v <= b + tol), "inside")
        f = c.get_final_controls_lists(arr(ctx, x, ad))[2]
        eq(ctx, [re_(v) for v in cells(f)], [ctx.min(ctx.max(a, v), b) for a, v, b in zip(lo, x, hi)], "clipped", tol)


def grid(ctx, cfg):
    setup(ctx)
    n, m, ad = cfg["bins"], cfg["np"], cfg.get("ad", False)
    T = [ctx.real("T%d" % i, 0.01, 100) for i in range(m)]
    bins = [n + i for i in range(m)]
    for order in (list(range(m)), list(range(m))[::-1]):
        times = [time_dict("t%d" % i, T[i]) for i in order]
        c = controls([pulse_dict("p%d" % i, bins=bins[i], time_name="t%d" % i, lower=-20, upper=20) for i in range(m)], times, [], is_AD=ad)
        for rnd in range(2):
            x = reals(ctx, "x%d_%d_" % (order[0], rnd), sum(bins))
            ps, ts, pr = c.get_controls_lists(arr(ctx, x, ad))
            for i in range(m):
                t = [re_(v) for v in cells(ts[i])][:bins[i]]
                p = [re_(v) for v in cells(ps[i])][:bins[i]]
                ctx.check(len(t) == bins[i] and len(p) == bins[i], "own-time")
                want = [T[i] * k / (bins[i] - 1) for k in range(bins[i])]
                eq(ctx, t, want, "grid", 1e-3 if ad else 1e-9)
                for a, b in zip(t, t[1:]):
                    ctx.check(b > a, "grid")
                o = sum(bins[:i])
                eq(ctx, p, x[o:o + bins[i]], "stateless", 1e-4)
            if rnd == 0 and not ad:
                # adding to the base pulse and giving the same amplitudes back changes nothing in the grid
                c.update_base_controls(arr(ctx, x))
                c.update_base_controls(arr(ctx, [-v for v in x]))


NAMES = (["t0", "t1", "t2"], ["time", "time1", "time11"], ["T", "t", "TT"])


def share(ctx, cfg):
    """several pulses per time; the guess makes every pulse show the times at which it was sampled"""
    setup(ctx)
    assign, bins, ad = cfg["assign"], cfg["bins"], cfg["ad"]
    nm = NAMES[cfg["names"]]
    nt = max(assign) + 1
    T = [ctx.real("T%d" % i, 0.5, 100) for i in range(nt)]
    ps = [pulse_dict("p%d" % i, bins=b, time_name=nm[a], lower=-300.0, upper=300.0, guess=lamf("lambda t: t")) for i, (a, b) in enumerate(zip(assign, bins))]
    pars_ = [par_dict("q0", 0.25, -1.0, 1.0), par_dict("q1", -0.5, -1.0, 0.5)]
    c = controls(ps, [time_dict(nm[i], T[i]) for i in range(nt)], pars_, is_AD=ad)
    tol = 1e-2 if ad else 1e-9
    n = sum(bins)
    for rnd in range(3):
        x = reals(ctx, "x%d_" % rnd, n + 2, -2, 2)
        get = c.get_controls_lists if rnd != 1 else c.get_final_controls_lists
        P, G, Q = get(arr(ctx, x, ad))
        ctx.check(len(P) == len(bins) and len(G) == len(bins) and len(Q) == 2, "own-time")
        o = 0
        for i, b in enumerate(bins):
            if not ad:
                ctx.check(len(cells(P[i])) == b and len(cells(G[i])) == b, "own-time")
            want = [T[assign[i]] * k / (b - 1) for k in range(b)]
            eq(ctx, [re_(v) for v in cells(G[i])][:b], want, "grid", tol)
            eq(ctx, [re_(v) for v in cells(P[i])][:b], [w + v for w, v in zip(want, x[o:o + b])], "own-time", tol)
            o += b
        eq(ctx, [re_(v) for v in cells(Q)], [ctx.min(ctx.max(a, v), u) for a, v, u in ((-1.0, x[n], 1.0), (-1.0, x[n + 1], 0.5))], "clipped", tol)


HARNESS = {"pars": pars, "grid": grid, "share": share}
