"""C13 random super-parameters and start simplex"""
from .alg import *

BOUNDS = ("1-4 basis vectors, 1-2 pulses of the chopped bases, both with and without seeded generator, limits and every draw symbolic; "
          "start simplex of dimension 1-5 with symbolic start point and spreads: one draw symbolic up to dimension 2, several fixed draws "
          "above; starts of GRAPE and AD with symbolic draws; "
          "12 Fourier vectors, 6 of the other bases, simplices of dimension 8 and 11 with given draws")
OUTSIDE = "quality of the random numbers, draws that make the random direction vanish exactly"
EXPECT = ["own-bin", "whole-bin", "fresh", "first-vertex", "spread", "orthonormal", "start-near", "random-direction", "restart-near"]
BUDGET = {"quick": 100, "thorough": 400}
DRAWS = [[0.3125, 0.625, 0.875, 0.125, 0.4375], [0.0, 0.99, 0.01, 0.5, 0.75], [0.9, 0.1, 0.2, 0.95, 0.0], [0.1, 0.9, 0.9, 0.9, 0.9]]


def configs(tier):
    r = []
    for kind in CHOPPED:
        for nv in ((1, 2, 3, 4, 7, 12) if kind == "Fourier" or tier == "thorough" else (2, 6)):
            for seeded in (False, True):
                r.append({"name": "w-%s-%d%s" % (kind.lower(), nv, "-seed" if seeded else ""), "h": "freq", "kind": kind, "nv": nv, "seeded": seeded})
    r.append({"name": "w-ad", "h": "freq", "kind": "Fourier", "nv": 2, "seeded": True, "ad": True})
    r.append({"name": "simplex-1-sym", "h": "simplex", "n": 1, "draws": None})
    for k in range(3):
        r.append({"name": "simplex-2-sym%d" % k, "h": "simplex", "n": 2, "draws": None, "fix": k})
    for n in (1, 2, 3, 4, 5, 8, 11) + ((15, ) if tier == "thorough" else ()):
        for k in range(len(DRAWS)):
            r.append({"name": "simplex-%d-%d" % (n, k), "h": "simplex", "n": n, "draws": k, "seeded": k % 2 == 0})
    for alg in ("dCRAB", "DirectSearch"):
        r.append({"name": "first-points-" + alg.lower(), "h": "first", "alg": alg})
        r.append({"name": "first-points-%s-limits" % alg.lower(), "h": "first", "alg": alg, "lim": 1.25})
    for alg in ("GRAPE", "AD"):
        for pars in (0, 1):
            r.append({"name": "start-%s-%d" % (alg.lower(), pars), "h": "start", "alg": alg, "pars": pars})
    for si in (2, ) if tier == "quick" else (2, 3):
        for pars in (0, 1, 2):
            r.append({"name": "restart-ad-%d-%d" % (si, pars), "h": "restart", "si": si, "pars": pars})
    return r


def rng_of(seeded):
    return q("quocslib.tools.randomgenerator").RandomNumberGenerator(seed_number=3) if seeded else None


def freq(ctx, cfg):
    env = setup(ctx)
    nv, seen = cfg["nv"], []
    env.gen_draw = lambda g, kind, k: seen.append(ctx.real("u%d" % len(seen), 0, 1)) or seen[-1]
    a, b = ctx.real("a", -10.0, 10), ctx.real("b", -10.0, 10)
    ctx.assume(a + 0.01 <= b)
    bk = dict(wlo=a, whi=b)
    m = 1 if nv > 2 else 2
    c = controls([pulse_dict("P%d" % i, cfg["kind"], bins=3, nv=nv, basis_kw=bk) for i in range(m)], [time_dict("T", 1.0)], [],
                 rng=rng_of(cfg["seeded"]), is_AD=cfg.get("ad", False))
    prev = None
    for rnd in range(2):
        n0 = len(seen)
        c.select_basis()
        w = [list(cells(x)) for x in c.get_random_super_parameter()]
        ctx.check([len(x) for x in w] == [nv] * m, "own-bin")
        ws = [v for x in w for v in x]
        ctx.check(len(seen) - n0 == nv * m, "fresh")
        # bin i of each pulse, the position inside given by the pulse's own draws
        want = []
        for j in range(m):
            for i in range(nv):
                lo, hi = a + i * (b - a) / nv, a + (i + 1) * (b - a) / nv
                ctx.check(ctx.And(w[j][i] >= lo - 1e-7, w[j][i] <= hi + 1e-7), "own-bin")
                want.append(lo + seen[n0 + j * nv + i] * (hi - lo))
        eq(ctx, ws, want, "whole-bin", 1e-6)


def simplex(ctx, cfg):
    env = setup(ctx)
    n = cfg["n"]
    F = q("quocslib.tools.linearalgebra").simplex_creation
    mean, sig = reals(ctx, "m", n, -10, 10), reals(ctx, "s", n, 0.01, 10)
    if cfg["draws"] is None:
        u = reals(ctx, "u", n, 0, 1)
        if n == 2:
            u[1] = [0.25, 0.5, 0.875][cfg["fix"]]
        # the random direction does not vanish
        ctx.assume(ctx.Or(u[0] > 0.22, u[0] < 0.2))
    else:
        u = [DRAWS[cfg["draws"]][i % 5] for i in range(n)]
    const_draws(env, u)
    rng = rng_of(cfg.get("seeded", False))
    A = F(arr(ctx, mean), arr(ctx, sig), rng=rng) if rng is not None else F(arr(ctx, mean), arr(ctx, sig))
    ctx.check(tuple(A.shape) == (n + 1, n), "spread")
    V = [[A[i, j] for j in range(n)] for i in range(n + 1)]
    eq(ctx, V[0], mean, "first-vertex", 1e-9)
    # the same draws around the origin with unit spread give the directions
    const_draws(env, u)
    B = F(arr(ctx, [0.0] * n), arr(ctx, [1.0] * n), rng=rng_of(cfg.get("seeded", False)))
    O = [[B[i + 1, j] for j in range(n)] for i in range(n)]
    for i in range(n):
        eq(ctx, V[i + 1], [mean[j] + sig[j] * O[i][j] for j in range(n)], "spread", 1e-6)
    for i in range(n):
        for k in range(i + 1):
            eq(ctx, [sum(O[i][j] * O[k][j] for j in range(n))], [1.0 if i == k else 0.0], "orthonormal", 1e-6)
    # the directions lean by the draws over all axes, and are not the axes themselves
    if cfg["draws"] is not None and n > 1:
        for j in range(n):
            if abs(u[j] - 0.5) > 0.05 and abs(1 + math.sqrt(3) * (2 * u[0] - 1)) > 0.05:
                hit = [ctx.Or(O[i][j] > 1e-3, O[i][j] < -1e-3) for i in range(n)]
                ctx.check(ctx.Or(*[ctx.And(hit[i], hit[k]) for i in range(n) for k in range(i)]), "random-direction")


def first(ctx, cfg):
    """the first evaluations of a run are the start point and the vertices of such a simplex"""
    env = setup(ctx)
    const_draws(env, DRAWS[0])
    alg, n = cfg["alg"], 3
    v = reals(ctx, "v", n, -1, 1)
    var = [ctx.real("a%d" % i, 0.05, 2) for i in range(n)]
    lim = cfg.get("lim", 9.0)
    pars = [par_dict("q%d" % i, v[i], -lim, lim, var[i]) for i in range(n)]
    d = opt_dict(alg, pars=pars, max_eval_total=n + 1)
    f = FoM(ctx, value=lambda k, c: 1.0 + k)
    Run(ctx, d, f).go()
    ctx.check(len(f.calls) == n + 1, "first-vertex")
    P = [c["parameters"] for c in f.calls]
    eq(ctx, P[0], v, "first-vertex", 1e-9)
    const_draws(env, DRAWS[0])
    B = q("quocslib.tools.linearalgebra").simplex_creation(arr(ctx, [0.0] * n), arr(ctx, [1.0] * n))
    for i in range(n):
        eq(ctx, P[i + 1], clip(ctx, [v[j] + var[j] * B[i + 1, j] for j in range(n)], -lim, lim), "spread", 1e-6)


def start(ctx, cfg):
    env = setup(ctx)
    u = []
    env.gen_draw = lambda g, kind, k: u.append(ctx.real("u%d" % len(u), 0, 1)) or u[-1]
    n = 3
    d = small(cfg["alg"], n, pars=cfg["pars"], seed=4, **({"super_iteration_number": 1} if cfg["alg"] == "AD" else {}))
    f = FoM(ctx)
    run_ = Run(ctx, d, f)
    got = []
    env.minimize = fun_minimize(ctx, lambda x0: got.append(x0) or [x0])
    mean, sig = cells(run_.alg.controls.get_mean_value()), cells(run_.alg.controls.get_sigma_variation())
    run_.go()
    ctx.check(len(got) == 1 and len(got[0]) == n, "start-near")
    for i in range(n):
        # the whole interval of +- one spread, by the control's own draw
        d, e = got[0][i] - mean[i], (1 - 2 * u[i]) * sig[i]
        ctx.check(ctx.Or(ctx.And(d - e <= 1e-5, e - d <= 1e-5), ctx.And(d + e <= 1e-5, -1e-5 <= d + e)), "start-near")


def restart(ctx, cfg):
    """each further super-iteration of AD starts within one spread of the best controls so far"""
    env = setup(ctx)
    u = []
    env.gen_draw = lambda g, kind, k: u.append(ctx.real("u%d" % len(u), 0, 1)) or u[-1]
    n = 3
    d = small("AD", n, pars=cfg["pars"], seed=4, super_iteration_number=cfg["si"])
    f = FoM(ctx)
    r = Run(ctx, d, f)
    env.minimize = fun_minimize(ctx, lambda x0: [x0, [v + 0.5 for v in x0]])
    r.go()
    ctx.check(len(f.calls) == 2 * cfg["si"], "restart-near")
    for s in range(1, cfg["si"]):
        best = first_min(ctx, [c["FoM"] for c in f.calls[:2 * s]])
        a, b = [[re_(v) for v in flat(f.calls[i])] for i in (best, 2 * s)]
        ctx.check(len(a) == n == len(b), "restart-near")
        for x, y, v in zip(a, b, u[n * s:n * s + n]):
            t = (1 - 2 * v) * 0.5
            ctx.check(ctx.Or(ctx.allclose([y - x], [t], 1e-5), ctx.allclose([y - x], [-t], 1e-5)), "restart-near")


HARNESS = {"restart": restart, "freq": freq, "simplex": simplex, "first": first, "start": start}
