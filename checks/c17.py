"""C17 piecewise constant time evolution"""
from .common import *

BOUNDS = ("2x2 (and 1x1, 3x3) complex matrices with symbolic entries in [-1.5, 1.5], 1-3 controls with symbolic amplitudes, 1-4 slices, symbolic slice "
          "duration; the matrix exponential is one uninterpreted function, the same for implementation and reference; "
          "11 slices in dimension 1, 6 in dimension 2, 5 controls")
OUTSIDE = "accuracy of the matrix exponential itself (scipy, jax), larger systems, rounding"
EXPECT = ["store", "final", "inputs-untouched", "start-respected", "in-order"]
BUDGET = {"quick": 120, "thorough": 500}
LEVEL = "bounded"
TOL = 2e-3


def configs(tier):
    th = tier == "thorough"
    r = []
    for ad in (False, True):
        for d, K, n in ((2, 1, 2), (2, 2, 2), (1, 3, 4), (2, 1, 3), (1, 5, 2), (1, 1, 11), (2, 1, 6)) + (((3, 2, 2), (2, 3, 3), (3, 1, 3)) if th else ()):
            for h in ("store", "final"):
                r.append({"name": "%s%s-d%d-k%d-n%d" % (h, "-ad" if ad else "", d, K, n), "h": h, "ad": ad, "d": d, "K": K, "n": n})
        # more amplitudes than slices that are asked for, and a second call with other amplitudes
        r.append({"name": "part%s" % ("-ad" if ad else ""), "h": "final", "ad": ad, "d": 2, "K": 1, "n": 1, "extra": 2})
        r.append({"name": "again%s" % ("-ad" if ad else ""), "h": "again", "ad": ad, "d": 1, "K": 2, "n": 2})
        r.append({"name": "real-drift%s" % ("-ad" if ad else ""), "h": "store", "ad": ad, "d": 2, "K": 1, "n": 2, "real": True})
        r.append({"name": "vector%s" % ("-ad" if ad else ""), "h": "final", "ad": ad, "d": 2, "K": 1, "n": 2, "vec": True})
    return r


def mod(ad):
    return q("quocslib.timeevolution.piecewise_integrator" + ("_AD" if ad else ""))


def fun(ad, name):
    return getattr(mod(ad), name + ("_AD" if ad else ""))


def mat(ctx, cfg, name, cols=None, real=False):
    d = cfg["d"]
    rows = []
    for i in range(d):
        row = []
        for j in range(cols or d):
            re = ctx.real("%s_%d%d" % (name, i, j), -1.5, 1.5)
            im = 0.0 if real else ctx.real("%s_%d%di" % (name, i, j), -1.5, 1.5)
            row.append(cplx(ctx, re, im))
        rows.append(row)
    return make(ctx, rows, cfg["ad"])


def cplx(ctx, re, im):
    if ctx.symbolic:
        return sym.SymComplex(sym.lift(re), sym.lift(im))
    return complex(re, im)


def make(ctx, rows, ad):
    if ctx.symbolic:
        return sarr.mkarr(rows, ad)
    if ad:
        import jax
        import jax.numpy as jnp
        jax.config.update("jax_enable_x64", True)      # as importing the AD algorithm does
        return jnp.asarray(np.array(rows))
    return np.array(rows)


def amplitudes(ctx, cfg, tag=""):
    n = cfg["n"] + cfg.get("extra", 0)
    return [[ctx.real("d%s%d_%d" % (tag, k, i), -2, 2) for i in range(n)] for k in range(cfg["K"])]


def expm(ctx, rows):
    """the exponential of the reference: same uninterpreted function as the one the implementation gets"""
    if ctx.symbolic:
        return two(loader.matrix_uf("expm", sarr.mkarr(rows), loader._expm))
    from scipy.linalg import expm as e
    return two(e(np.array(rows)))


def two(M):
    M = np.asarray(M) if not isinstance(M, np.ndarray) else M
    return [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]


def product(A, B):
    r = []
    for i in range(len(A)):
        row = []
        for j in range(len(B[0])):
            s = A[i][0] * B[0][j]
            for k in range(1, len(B)):
                s = s + A[i][k] * B[k][j]
            row.append(s)
        r.append(row)
    return r


def steps(ctx, cfg, amp, A, B, dt):
    a, b = two(A), [two(x) for x in B]
    d = cfg["d"]
    r = []
    for i in range(cfg["n"]):
        H = [[a[p][s] for s in range(d)] for p in range(d)]
        for k in range(cfg["K"]):
            H = [[H[p][s] + amp[k][i] * b[k][p][s] for s in range(d)] for p in range(d)]
        r.append(expm(ctx, [[-1j * dt * H[p][s] for s in range(d)] for p in range(d)]))
    return r


def parts(M):
    if not isinstance(M, (list, tuple)) and not isinstance(M, np.ndarray):
        M = np.asarray(M)
    r = []
    for v in (cells(M) if not isinstance(M, list) else [x for row in M for x in row]):
        r += [re_(v), im_(v)]
    return r


def same(ctx, cfg, X, Y, label):
    x, y = parts(X), parts(Y)
    if not ctx.symbolic:
        s = max([1.0] + [abs(v) for v in x + y])
        x, y = [v / s for v in x], [v / s for v in y]
        eq(ctx, x, y, label, TOL if cfg["ad"] else 1e-6)
        return
    eq(ctx, x, y, label)


def store(ctx, cfg):
    setup(ctx)
    A = mat(ctx, cfg, "a", real=cfg.get("real"))
    B = [mat(ctx, cfg, "b%d" % k) for k in range(cfg["K"])]
    amp = amplitudes(ctx, cfg)
    dt = ctx.real("dt", 0.001, 0.5)
    drive = make(ctx, amp, cfg["ad"])
    before = [parts(A)] + [parts(x) for x in B] + [parts(drive)]
    d, n = cfg["d"], cfg["n"]
    U0 = make(ctx, [[[0j] * d for _ in range(d)] for _ in range(n)], cfg["ad"]) if cfg["ad"] else [None] * n
    if ctx.symbolic and cfg["ad"]:
        U0 = sarr.mkarr(np.zeros((n, d, d), dtype=complex), True)
    U = fun(cfg["ad"], "pw_evolution")(U0, drive, A, B, n, dt)
    want = steps(ctx, cfg, amp, A, B, dt)
    ctx.check(len(U) == n, "in-order", "%d propagators" % len(U))
    for i in range(n):
        same(ctx, cfg, U[i], want[i], "store")
    after = [parts(A)] + [parts(x) for x in B] + [parts(drive)]
    for x, y in zip(before, after):
        eq(ctx, x, y, "inputs-untouched")


def final(ctx, cfg, tag=""):
    setup(ctx)
    A = mat(ctx, cfg, "a")
    B = [mat(ctx, cfg, "b%d" % k) for k in range(cfg["K"])]
    amp = amplitudes(ctx, cfg)
    dt = ctx.real("dt", 0.001, 0.5)
    drive = make(ctx, amp, cfg["ad"])
    U0 = mat(ctx, cfg, "u", cols=1 if cfg.get("vec") else None)
    before = [parts(A)] + [parts(x) for x in B] + [parts(drive), parts(U0)]
    U = fun(cfg["ad"], "pw_final_evolution")(drive, A, B, cfg["n"], dt, U0)
    want = two(U0)
    for s in steps(ctx, cfg, amp, A, B, dt):
        want = product(s, want)
    same(ctx, cfg, U, want, "final")
    ctx.check(len(parts(U)) == len(parts(U0)), "start-respected")
    after = [parts(A)] + [parts(x) for x in B] + [parts(drive), parts(U0)]
    for x, y in zip(before, after):
        eq(ctx, x, y, "inputs-untouched")


def again(ctx, cfg):
    """the second of two calls is as good as the first, both functions"""
    setup(ctx)
    A = mat(ctx, cfg, "a")
    B = [mat(ctx, cfg, "b%d" % k) for k in range(cfg["K"])]
    dt = ctx.real("dt", 0.001, 0.5)
    U0 = mat(ctx, cfg, "u")
    d, n = cfg["d"], cfg["n"]
    U = sarr.mkarr(np.zeros((n, d, d), dtype=complex), cfg["ad"]) if ctx.symbolic else make(ctx, np.zeros((n, d, d), dtype=complex), cfg["ad"])
    for t in range(2):
        amp = amplitudes(ctx, cfg, "xy"[t])
        drive = make(ctx, amp, cfg["ad"])
        U = fun(cfg["ad"], "pw_evolution")(U, drive, A, B, n, dt)
        F = fun(cfg["ad"], "pw_final_evolution")(drive, A, B, n, dt, U0)
        want = steps(ctx, cfg, amp, A, B, dt)
        for i in range(n):
            same(ctx, cfg, U[i], want[i], "store")
        w = two(U0)
        for s in want:
            w = product(s, w)
        same(ctx, cfg, F, w, "final")


HARNESS = {"store": store, "final": final, "again": again}
