"""C22 linear algebra helpers and noise"""
from .common import *
from .c17 import cplx, make, product, two, same, parts

BOUNDS = ("complex matrices of dimension 2 (commutator, Liouvillian, fidelities, displacement), 1-2 real columns (orthonormalisation), states of 2-3 "
          "subsystems of dimension 1-3 with every set and order of traced subsystems, noise of 1-6 steps; every entry, constant and draw symbolic; "
          "matrix exponential, exponential and square root uninterpreted, eigenvalues given by the harness; "
          "partial traces of 4-5 subsystems for selected sets, noise of 12 steps")
OUTSIDE = "accuracy of numpy's and jax's decompositions, larger matrices"
EXPECT = ["commutator", "liouvillian", "vector", "orthonormal", "span", "partial-trace", "density", "displacement", "root", "overlap", "fidelity",
          "noise", "noise-length"]
BUDGET = {"quick": 120, "thorough": 500}
ROT = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8), (0.8, -0.6), (5 / 13, 12 / 13)]


def configs(tier):
    th = tier == "thorough"
    r = [{"name": "matrices", "h": "matrices", "d": 2}, {"name": "matrices-3", "h": "matrices", "d": 3}, {"name": "matrices-1", "h": "matrices", "d": 1}]
    for n in (1, 2):
        r.append({"name": "gs%d" % n, "h": "gs", "n": n, "query_timeout_ms": 20000})
    import itertools
    for dims in ([2, 2], [2, 3], [3, 2], [2, 1, 2], [2, 2, 2], [1, 2, 3]) + (([2, 2, 3], [2, 1, 2, 2]) if th else ()):
        m = len(dims)
        for k in range(m):
            for t in itertools.permutations(range(m), k):
                r.append({"name": "pt-%s-%s" % ("".join(map(str, dims)), "".join(map(str, t)) or "none"), "h": "ptrace", "dims": dims, "out": list(t), "ad": True})
    for dims, t in (([2, 2, 2, 2], [1, 3]), ([2, 2, 2, 2], [3, 0]), ([2, 1, 2, 2], [2]), ([1, 2, 1, 2, 2], [4, 1]), ([2, 2, 2, 2], [2, 1, 0]), ([3, 2, 3], [1]),
                    ([2, 2, 1, 1, 2], [0, 4, 2])):
        r.append({"name": "pt-%s-%s" % ("".join(map(str, dims)), "".join(map(str, t))), "h": "ptrace", "dims": dims, "out": t, "ad": True})
    r.append({"name": "dm", "h": "dm", "n": 3, "ad": True})
    r.append({"name": "displace", "h": "displace", "n": 2, "ad": True})
    r.append({"name": "displace3", "h": "displace", "n": 3, "ad": True})
    r.append({"name": "root", "h": "root", "ad": True})
    r.append({"name": "overlap", "h": "overlap", "ad": True})
    r.append({"name": "fidelity", "h": "fid", "ad": True, "fork_ite": True})
    for n in (1, 2, 4, 12):
        r.append({"name": "ou%d" % n, "h": "ou", "n": n})
    r.append({"name": "ou-many", "h": "ou", "n": 3, "traj": 3})
    return r


def mat(ctx, name, n, m=None, lim=2, j=False):
    rows = [[cplx(ctx, ctx.real("%s_%d%d" % (name, i, k), -lim, lim), ctx.real("%s_%d%di" % (name, i, k), -lim, lim)) for k in range(m or n)]
            for i in range(n)]
    return make(ctx, rows, j), rows


def cj(z):
    return z.conjugate()


def dag(A):
    return [[cj(A[j][i]) for j in range(len(A))] for i in range(len(A[0]))]


def near(ctx, X, Y, label, tol=1e-6):
    """element by element, relative to the largest entry"""
    x, y = parts(X), parts(Y)
    if not ctx.symbolic:
        s = max([1.0] + [abs(v) for v in x + y])
        x, y = [v / s for v in x], [v / s for v in y]
    eq(ctx, x, y, label, tol)


def matrices(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    la = q("quocslib.tools.linearalgebra")
    d = cfg["d"]
    A, a = mat(ctx, "a", d)
    B, b = mat(ctx, "b", d)
    ab, ba = product(a, b), product(b, a)
    near(ctx, two(la.commutator(A, B)), [[x - y for x, y in zip(p, q_)] for p, q_ in zip(ab, ba)], "commutator")
    # acts on the columns of a density matrix, one below the other
    R, rho = mat(ctx, "r", d)
    col = [[rho[i][j]] for j in range(d) for i in range(d)]
    L = la.to_sup_op(A)
    ctx.check(tuple(L.shape) == (d * d, d * d), "liouvillian")
    h, g = product(a, rho), product(rho, a)
    near(ctx, product(two(L), col), [[h[i][j] - g[i][j]] for j in range(d) for i in range(d)], "liouvillian")
    near(ctx, [[v] for v in cells(la.to_vec(R))], [[rho[i][j]] for i in range(d) for j in range(d)], "vector")
    near(ctx, two(A), a, "commutator")


def gs(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    la = q("quocslib.tools.linearalgebra")
    n = cfg["n"]
    a = [[ctx.real("a%d%d" % (i, j), 1, 3) if i == j else ctx.real("a%d%d" % (i, j), -0.4, 0.4) for j in range(n)] for i in range(n)]
    A = sarr.mkarr(a) if ctx.symbolic else np.array(a)
    Q = two(la.gram_schmidt(A))
    for j in range(n):
        for k in range(j, n):
            s = sum(Q[i][j] * Q[i][k] for i in range(n))
            ctx.check(ctx.close(s, 1.0 if j == k else 0.0, 1e-6), "orthonormal")
    # the first vector keeps its direction
    m = sum(a[i][0] * Q[i][0] for i in range(n))
    for i in range(1, n):
        ctx.check(ctx.close(a[0][0] * Q[i][0], a[i][0] * Q[0][0], 1e-6), "span")
    ctx.check(m > 0, "span")


def ptrace(ctx, cfg):
    setup(ctx)
    pt = q("quocslib.tools.partial_trace")
    dims, out = cfg["dims"], cfg["out"]
    D = 1
    for x in dims:
        D *= x
    S, s = mat(ctx, "s", D, j=True)
    f = pt.jax_partial_trace_transform(list(dims), list(out))
    keep = [i for i in range(len(dims)) if i not in out]

    def pos(idx):
        p = 0
        for i, x in zip(idx, dims):
            p = p * x + i
        return p
    import itertools
    ks = list(itertools.product(*[range(dims[i]) for i in keep]))
    ts = list(itertools.product(*[range(dims[i]) for i in out]))
    want = []
    for r_ in ks:
        row = []
        for c in ks:
            v = 0.0
            for t in ts:
                ri, ci = [0] * len(dims), [0] * len(dims)
                for i, u, w in zip(keep, r_, c):
                    ri[i], ci[i] = u, w
                for i, u in zip(out, t):
                    ri[i] = ci[i] = u
                v = v + s[pos(ri)][pos(ci)]
            row.append(v)
        want.append(row)
    for _ in range(2):
        R = f(S)
        ctx.check(tuple(R.shape) == (len(ks), len(ks)), "partial-trace")
        near(ctx, two(R), want, "partial-trace")


def dm(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    n = cfg["n"]
    v = [cplx(ctx, ctx.real("v%d" % i, -2, 2), ctx.real("v%di" % i, -2, 2)) for i in range(n)]
    op = q("quocslib.tools.operations")
    S = sarr.mkarr(v, True) if ctx.symbolic else make(ctx, v, True)
    near(ctx, two(op.state_to_dm(S)), [[a * cj(b) for b in v] for a in v], "density")


def displace(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    n = cfg["n"]
    A, a = mat(ctx, "a", n, lim=1, j=True)
    al = cplx(ctx, ctx.real("al", -1, 1), ctx.real("ali", -1, 1))
    op = q("quocslib.tools.operations")
    D = two(op._displace(A, al))
    ad = dag(a)
    M = [[al * ad[i][j] - cj(al) * a[i][j] for j in range(n)] for i in range(n)]
    if ctx.symbolic:
        W = two(loader.matrix_uf("expm", sarr.mkarr(M), loader._expm))
    else:
        from scipy.linalg import expm
        W = two(expm(np.array(M)))
    near(ctx, D, W, "displacement", 1e-5)


def psd(ctx, name):
    """2x2 symmetric matrix with given eigenvalues; its decomposition is what numpy / jax would return"""
    c, s = ctx.choice(name + "rot", ROT)
    l = [ctx.real(name + "l0", 0.1, 2), ctx.real(name + "l1", 0.1, 2)]
    V = [[c, -s], [s, c]]
    M = [[sum(V[i][k] * l[k] * V[j][k] for k in range(2)) for j in range(2)] for i in range(2)]
    R = [[sum(V[i][k] * fn(ctx, "sqrt", l[k]) * V[j][k] for k in range(2)) for j in range(2)] for i in range(2)]
    return M, R, l, V


def adj_inv(m):
    (a, b), (c, d) = two(m)
    det = a * d - b * c
    return sarr.mkarr([[d / det, -b / det], [-c / det, a / det]], True)


def root(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    op = q("quocslib.tools.operations")
    M, R, l, V = psd(ctx, "m")
    if ctx.symbolic:
        def eigh(m):
            near(ctx, two(m), M, "root")
            return sarr.mkarr(l, True), sarr.mkarr(V, True)
        sym.CTX.linalg_hooks = {"eigh": eigh, "inv": adj_inv}
    X = op._sqrtm(make(ctx, M, True))
    near(ctx, two(X), R, "root", 1e-5)


def overlap(ctx, cfg):
    setup(ctx)
    ctx.poly = True
    ju = q("quocslib.utils.jax_utils")
    A, a = mat(ctx, "a", 2, j=True)
    B, b = mat(ctx, "b", 2, j=True)
    t = product(dag(a), b)
    tr = t[0][0] + t[1][1]
    got = ju.fidelity_funct(A, B)
    got = re_(cells(got)[0])
    y = re_(tr) * re_(tr) + im_(tr) * im_(tr)
    want = sym.ssqrt(y, True) if ctx.symbolic else math.sqrt(y)
    s = 1.0 if ctx.symbolic else max(1.0, abs(want))
    ctx.check(ctx.close(got / s, want / s, 1e-5), "overlap")


def fid(ctx, cfg):
    setup(ctx)
    fi = q("quocslib.tools.fidelities")
    S = [[ctx.real("s00", 0, 1), ctx.real("s01", -0.5, 0.5)], [0.0, ctx.real("s11", 0, 1)]]
    S[1][0] = S[0][1]
    B = [[ctx.real("b00", 0.5, 1), ctx.real("b01", -0.25, 0.25)], [0.0, ctx.real("b11", 0.5, 1)]]
    B[1][0] = B[0][1]
    P = product(product(S, B), S)
    if ctx.symbolic:
        ctx.poly = True
        # eigenvalues of a product of this kind are not negative, rounding may make them so
        l = [ctx.real("l0", -0.001, 2), ctx.real("l1", 0.01, 2)]

        def eigvals(m):
            near(ctx, two(m), P, "fidelity")
            return sarr.mkarr(l, True)
        sym.CTX.linalg_hooks = {"eigvals": eigvals}
    else:
        l = [float(np.real(v)) for v in np.linalg.eigvals(np.array(P))]
    got = re_(cells(fi.fidelity_AD(make(ctx, S, True), make(ctx, B, True)))[0])
    r = sum(fn(ctx, "sqrt", ctx.max(v, 0.0)) for v in l)
    ctx.check(ctx.close(got, r * r, 1e-5 if ctx.symbolic else 2e-3), "fidelity")


def ou(ctx, cfg):
    env = setup(ctx)
    n, traj = cfg["n"], cfg.get("traj")
    z = [ctx.real("z%d" % i, -3, 3) for i in range(n * (traj or 1))]
    const_draws(env, z)
    tau, c, x0 = ctx.real("tau", 0.5, 4), ctx.real("c", 0.1, 4), ctx.real("x0", -2, 2)
    dt = 0.125
    T = ctx.real("T", n * dt + 0.001, (n + 1) * dt - 0.001)
    O = q("quocslib.noiseprocesses.ornsteinuhlenbeckprocess").OrnsteinUhlenbeck(tau=tau, c=c, x0=x0, dt=dt)
    k = 0
    if traj:
        E = O.get_ensemble_noise_realization(T, traj)
        ctx.check(tuple(E.shape) == (traj, n), "noise-length")
        rows = [cells(E[i]) for i in range(traj)]
    else:
        rows = [cells(O.get_noise_realization(T))]
        ctx.check(len(rows[0]) == n, "noise-length")
    mu = fn(ctx, "exp", -dt / tau)
    sd = fn(ctx, "sqrt", c * tau / 2 * (1 - fn(ctx, "exp", -2 * dt / tau)))
    for row in rows:
        want = [x0]
        for i in range(n - 1):
            want.append(want[-1] * mu + sd * z[k])
            k += 1
        eq(ctx, row, want, "noise", 1e-6)


HARNESS = {"matrices": matrices, "gs": gs, "ptrace": ptrace, "dm": dm, "displace": displace, "root": root, "overlap": overlap, "fid": fid, "ou": ou}
