"""C18 the derivatives handed to the optimiser are those of the figure of merit it minimises"""
from .alg import *
from .c17 import cplx, product, two

BOUNDS = ("AD: figure of merit a polynomial of degree two with symbolic coefficients, 2-3 samples per pulse, 1-2 pulses, up to 2 parameters, "
          "symbolic guess, scaling, base pulse of a second super-iteration, 2-3 symbolic points; GRAPE: 2-9 slices, dimension 2-4, complex symbolic "
          "propagators (given ones beyond 3 slices or dimension 2), states and control, symbolic final time, 2 points one after the other; tolerances of the optimiser symbolic; "
          "GRAPE with 11 slices and given propagators")
OUTSIDE = "correctness of jax's own differentiation (modelled by the exact difference quotient), FoM of higher degree, active limits"
EXPECT = ["ad-value", "ad-gradient", "options", "grape-gradient", "grape-value", "grape-controls"]
BUDGET = {"quick": 200, "thorough": 700}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "ad", "kinds": ["P"], "bins": [3], "pars": 0, "si": 1, "points": 2, "dir": "minimization", "fork_ite": True}, **k))
    for dr in ("minimization", "maximization"):
        s = "-" + dr[:3]
        add("ad" + s, dir=dr)
        add("ad-guess" + s, dir=dr, guess=True)
        add("ad-scale" + s, dir=dr, scale=True, guess=True, bins=[2])
        add("ad-par" + s, dir=dr, pars=2, bins=[2])
        add("ad-si" + s, dir=dr, si=2, bins=[2])
        add("ad-fourier" + s, dir=dr, kinds=["F"], points=2)
        for n in (2, ) + ((3, ) if th else ()):
            r.append({"name": "grape-%d%s" % (n, s), "h": "grape", "n": n, "dir": dr})
    add("ad-two", kinds=["P", "P"], bins=[2, 2], pars=1, guess=True)
    add("ad-si-par", kinds=["P"], bins=[1], pars=1, si=2)
    add("ad-fourier-si", kinds=["F"], si=2, points=1)
    if th:
        add("ad-mixed", kinds=["F", "P"], bins=[3, 3], pars=1, guess=True, scale=True)
    for n, dim in ((4, 2), (6, 2), (11, 2), (3, 3)) if not th else ((5, 2), (9, 2), (4, 3), (3, 4)):
        # propagators given, everything else symbolic
        r.append({"name": "grape-%dx%d" % (n, dim), "h": "grape", "n": n, "d": dim, "dir": "minimization" if n % 2 else "maximization"})
    r.append({"name": "grape-guess", "h": "grape", "n": 2, "guess": True, "dir": "minimization"})
    for alg in ("AD", "GRAPE"):
        r.append({"name": "options-" + alg.lower(), "h": "options", "alg": alg, "given": True})
        r.append({"name": "defaults-" + alg.lower(), "h": "options", "alg": alg, "given": False})
    return r


def close(ctx, xs, ys, label, tol=1e-3):
    if not ctx.symbolic:
        s = max([1.0] + [abs(v) for v in list(xs) + list(ys)])
        xs, ys = [v / s for v in xs], [v / s for v in ys]
    eq(ctx, xs, ys, label, tol)


def ad(ctx, cfg):
    env = setup(ctx)
    ctx.poly = True
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375])
    kinds, bins = cfg["kinds"], cfg["bins"]
    T = 2.0
    pulses, guess, scale = [], [], []
    for i, (k, b) in enumerate(zip(kinds, bins)):
        g = reals(ctx, "g%d_" % i, b, -2, 2) if cfg.get("guess") else None
        s = reals(ctx, "s%d_" % i, b, -2, 2) if cfg.get("scale") else None
        guess.append(g or [0.0] * b)
        scale.append(s or [1.0] * b)
        pulses.append(pulse_dict("A%d" % i, "PiecewiseBasis" if k == "P" else "Fourier", bins=b, time_name="t", lower=-1e3, upper=1e3, var=0.5,
                                 guess=listf(ctx, g) if g else None, scaling=listf(ctx, s) if s else None))
    npar = cfg["pars"]
    pars = [par_dict("q%d" % i, 0.5, -50.0, 50.0, 0.5) for i in range(npar)]
    sizes = [b if k == "P" else 2 for k, b in zip(kinds, bins)]
    dim = sum(sizes) + npar
    nf = sum(bins) + npar
    lin, quad = reals(ctx, "l", nf, -2, 2), reals(ctx, "q", nf, -2, 2)
    d = opt_dict("AD", pulses=pulses, times=[time_dict("t", T)], pars=pars, direction=cfg["dir"], super_iteration_number=cfg["si"],
                 random_number_generator={"seed_number": 3})
    fom = QuadFoM(ctx, lin, quad, 0.25)
    grad_model(ctx, env, fom)
    r = Run(ctx, d, fom)
    F = -1 if cfg["dir"] == "maximization" else 1
    got, freqs = [], []
    points = [[reals(ctx, "x%d_%d_" % (s, i), dim, -1.0 + 3 * i, 1.0 + 3 * i) for i in range(cfg["points"])] for s in range(cfg["si"])]

    def pts(x0):
        freqs.append([list(w) if w is not None else None for w in [
            cells(p.super_parameter_distribution_obj.w) if hasattr(p, "super_parameter_distribution_obj") else None
            for p in r.alg.controls.pulse_objs_list]])
        return points[len(got) - 1]
    env.minimize = capture_minimize(ctx, got, pts, True)
    r.go()
    ctx.check(len(got) == cfg["si"], "ad-value")
    base = [[0.0] * b for b in bins]
    best = None       # (internal value, point), over all evaluations
    for s in range(cfg["si"]):
        rec = None
        for e in got[s]["at"]:
            x = e["x"]
            p, J = shape(ctx, kinds, bins, sizes, freqs[s], T, x)
            tot, flatp, dp = [], [], []
            at = 0
            for i, b in enumerate(bins):
                for m in range(b):
                    flatp.append(scale[i][m] * (guess[i][m] + base[i][m] + p[i][m]))
                    row = [0.0] * dim
                    for j in range(sizes[i]):
                        row[at + j] = scale[i][m] * J[i][m][j]
                    dp.append(row)
                at += sizes[i]
            for j in range(npar):
                flatp.append(x[at + j])
                row = [0.0] * dim
                row[at + j] = 1.0
                dp.append(row)
            val = F * fom.form(flatp)
            close(ctx, [re_(v) for v in cells(e["f"])], [val], "ad-value")
            g = []
            for j in range(dim):
                t = 0.0
                for m in range(nf):
                    if not (isinstance(dp[m][j], float) and dp[m][j] == 0.0):
                        t = t + (lin[m] + 2 * quad[m] * flatp[m]) * dp[m][j]
                g.append(F * t)
            close(ctx, [re_(v) for v in e["g"]], g, "ad-gradient")
            if s + 1 < cfg["si"]:
                v = re_(cells(e["f"])[0])
                if best is None or ctx.branch(ctx_b(v < best[0])):
                    best = (v, x, p)
        if s + 1 < cfg["si"]:
            base = [[u + v for u, v in zip(bb, pp)] for bb, pp in zip(base, best[2])]


def shape(ctx, kinds, bins, sizes, freqs, T, x):
    """new update of each pulse and its derivative with respect to the pulse's own coefficients"""
    p, J, at = [], [], 0
    for i, (k, b) in enumerate(zip(kinds, bins)):
        c = x[at:at + sizes[i]]
        at += sizes[i]
        if k == "P":
            p.append(list(c))
            J.append([[1.0 if m == j else 0.0 for j in range(b)] for m in range(b)])
            continue
        w = freqs[i][0]
        rows = []
        for m in range(b):
            a = 2 * math.pi * w * (m / (b - 1))
            rows.append([fn(ctx, "sin", a), fn(ctx, "cos", a)])
        p.append([c[0] * u + c[1] * v for u, v in rows])
        J.append(rows)
    return p, J


class Grape(FoM):
    def __init__(self, ctx, cfg, U, init, target, drift, control, **k):
        super().__init__(ctx, **k)
        self.U, self.init, self.target, self.drift, self.control = U, init, target, drift, control
        self.asked = []

    def get_propagator(self, pulses_list=None, time_grids_list=None, parameters_list=None):
        k = len(self.asked)
        self.asked.append([cells(p) for p in pulses_list])
        return self.U[k]

    def get_initial_state(self):
        return self.init

    def get_target_state(self):
        return self.target

    def get_drift_Hamiltonian(self):
        return self.drift

    def get_control_Hamiltonians(self):
        return self.control


def matrix(ctx, name, d=2):
    rows = [[cplx(ctx, ctx.real("%s_%d%d" % (name, i, j), -2, 2), ctx.real("%s_%d%di" % (name, i, j), -2, 2)) for j in range(d)]
            for i in range(d)]
    return sarr.mkarr(rows) if ctx.symbolic else np.array(rows)


def dag(A):
    return [[conj(A[j][i]) for j in range(len(A))] for i in range(len(A[0]))]


def conj(z):
    return z.conjugate() if hasattr(z, "conjugate") else z


def sub(A, B):
    return [[a - b for a, b in zip(x, y)] for x, y in zip(A, B)]


def grape(ctx, cfg):
    env = setup(ctx)
    ctx.poly = True
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375])
    n = cfg["n"]
    T = ctx.real("T", 0.5, 4)
    np_points = 2 if n < 3 else 1
    dim = cfg.get("d")
    if dim:
        U = [[np.array([[complex((3 * i + 5 * j + 7 * t + i * j) % 11 - 5, (2 * i + 3 * j * j + t) % 7 - 3) / 8 for j in range(dim)]
                        for i in range(dim)]) for t in range(n)] for k in range(np_points)]
    else:
        dim = 2
        U = [[matrix(ctx, "u%d_%d" % (k, t)) for t in range(n)] for k in range(np_points)]
    init, target, control = matrix(ctx, "r", dim), matrix(ctx, "a", dim), matrix(ctx, "b", dim)
    guess = reals(ctx, "g", n, -2, 2) if cfg.get("guess") else None
    d = opt_dict("GRAPE", pulses=[pulse_dict("A", bins=n, time_name="t", lower=-1e3, upper=1e3, var=0.5, guess=listf(ctx, guess) if guess else None)],
                 times=[time_dict("t", T)], direction=cfg["dir"])
    d["times"][0]["initial_value"] = T
    drift = np.diag([1.0, -1.0, 0.5, 2.0][:dim]).astype(complex)
    ini0, tar0, con0 = [x.copy() for x in (init, target, control)]
    fom = Grape(ctx, cfg, U, init, target, drift, control)
    r = Run(ctx, d, fom)
    F = -1 if cfg["dir"] == "maximization" else 1
    got = []
    points = [reals(ctx, "x%d_" % k, n, -1 + 3 * k, 1 + 3 * k) for k in range(np_points)]
    env.minimize = capture_minimize(ctx, got, lambda x0: points, False)
    r.go()
    dt = T / n
    ctx.check(len(got) == 1 and len(fom.calls) == np_points and len(fom.asked) == np_points, "grape-value")
    B = two(con0)
    for k in range(np_points):
        e = got[0]["at"][k]
        close(ctx, [re_(v) for v in cells(e["f"])], [F * fom.calls[k]["FoM"]], "grape-value", 1e-6)
        want = [points[k][t] + (guess[t] if guess else 0.0) for t in range(n)]
        close(ctx, [re_(v) for p in fom.asked[k] for v in p], want, "grape-controls", 1e-6)
        close(ctx, [re_(v) for p in fom.calls[k]["pulses"] for v in p], want, "grape-controls", 1e-6)
        rho = [two(ini0)]
        for t in range(n):
            u = two(U[k][t])
            rho.append(product(product(u, rho[-1]), dag(u)))
        lam = [None] * n + [two(tar0)]
        for t in reversed(range(n)):
            u = two(U[k][t])
            lam[t] = product(product(dag(u), lam[t + 1]), u)
        g = []
        for t in range(n):
            M = product(dag(lam[t]), sub(product(B, rho[t]), product(rho[t], B)))
            tr = M[0][0]
            for i in range(1, dim):
                tr = tr + M[i][i]
            g.append(-dt * im_(tr))      # Re(i dt tr)
        close(ctx, [re_(v) for v in e["g"]], g, "grape-gradient", 1e-6)


def options(ctx, cfg):
    env = setup(ctx)
    ctx.poly = True
    const_draws(env, [0.3125, 0.625])
    d = small(cfg["alg"], 1, seed=5)
    want = {"ftol": 1e-6, "gtol": 1e-6, "maxls": 20, "maxfun": 10**10}
    if cfg["given"]:
        want = {"ftol": ctx.real("ftol", 1e-9, 1e-2), "gtol": ctx.real("gtol", 0.1, 1), "maxls": ctx.int("maxls", 1, 50),
                "maxfun": ctx.int("maxfun", 2, 40)}
        d["algorithm_settings"]["stopping_criteria"] = {"ftol": want["ftol"], "gtol": want["gtol"], "maxls": want["maxls"],
                                                        "max_eval_total": want["maxfun"]}
    fom = QuadFoM(ctx, [1.0], [0.5])
    fom.__class__ = type("G", (QuadFoM, ), {})
    if cfg["alg"] == "AD":
        grad_model(ctx, env, fom)
    r = Run(ctx, d, fom)
    got = []
    env.minimize = capture_minimize(ctx, got, lambda x0: [x0], False)
    r.go()
    ctx.check(len(got) == 1 and str(got[0]["method"]).upper() == "L-BFGS-B", "options")
    for k, v in want.items():
        ctx.check(k in got[0]["options"], "options", k)
        if k in got[0]["options"]:
            ctx.check(ctx.allclose([got[0]["options"][k]], [v], 1e-12), "options", k)


HARNESS = {"ad": ad, "grape": grape, "options": options}
