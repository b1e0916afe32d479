"""C24 the example problems"""
from .common import *
from .c17 import cplx, product, two

BOUNDS = ("OneQubit, OneQubit2Fields, Rosenbrock, both Ising models: pulses of 1-3 samples (time grids of 2-3 points), 1-3 evaluations on one object, 2-5 "
          "qubits for the Hamiltonians and 2 for the dynamics; amplitudes, phases, detunings, durations, couplings, noise and drift symbolic; the matrix "
          "exponential maps the wanted slice generators to given unitaries and anything else to anything; "
          "5 and 9 samples, 9 evaluations on one object, 7 qubits for the Hamiltonian")
OUTSIDE = "accuracy of expm and sqrtm, states that are not normalised, more qubits in the dynamics"
EXPECT = ["figure-of-merit", "noise", "std", "history", "drift", "hamiltonian", "propagators", "states", "defaults", "saved-history"]
BUDGET = {"quick": 120, "thorough": 500}
LEVEL = "bounded"
# rational unitaries
MENU = [[[0.6, -0.8j], [-0.8j, 0.6]], [[(3 + 4j) / 5, 0.0], [0.0, (3 - 4j) / 5]], [[0.28, 0.96], [-0.96, 0.28]],
        [[0.8j, 0.6], [0.6, 0.8j]], [[0.6, 0.8], [-0.8, 0.6]], [[(12 + 5j) / 13, 0.0], [0.0, (5 + 12j) / 13]],
        [[0.96, -0.28j], [-0.28j, 0.96]], [[-0.6, 0.8j], [0.8j, -0.6]], [[0.0, 1j], [1.0, 0.0]]]
STATES = [(None, None), ("[1.0, 0.0]", "[0.0, 1.0]"), ("[0.6, 0.8j]", "[0.28j, 0.96]"), ("[0.0, 1.0]", "[0.6, -0.8]")]


def configs(tier):
    th = tier == "thorough"
    r = []
    for n in (1, 2, 3):
        for s in range(len(STATES)):
            r.append({"name": "onequbit-%d-s%d" % (n, s), "h": "onequbit", "n": n, "state": s, "evals": 2 if s else 1})
    for nm, k in (("max", {"factor": 1.0}), ("par", {"par": True}), ("drift", {"drift": True, "evals": 3}), ("noisy", {"noisy": True}),
                  ("all", {"drift": True, "noisy": True, "par": True, "factor": 1.0}), ("default", {"default": True})):
        r.append(dict({"name": "onequbit-" + nm, "h": "onequbit", "n": 2, "state": 0, "evals": 2}, **k))
    for n in (1, 2, 3):
        for s in range(len(STATES)):
            r.append({"name": "fields-%d-s%d" % (n, s), "h": "fields", "n": n, "state": s, "evals": 2})
    r.append({"name": "fields-noisy", "h": "fields", "n": 2, "state": 2, "evals": 2, "noisy": True})
    r.append({"name": "fields-default", "h": "fields", "n": 2, "state": 0, "evals": 1, "default": True})
    for n in (1, 2, 3, 4):
        r.append({"name": "rosen-%d" % n, "h": "rosen", "n": n})
    r.append({"name": "rosen-noisy", "h": "rosen", "n": 2, "noisy": True})
    r.append({"name": "rosen-default", "h": "rosen", "n": 2, "default": True})
    for ad in (False, True):
        for nq in (2, 3, 4, 5):
            r.append({"name": "ising-h-%d%s" % (nq, "-ad" if ad else ""), "h": "isingham", "nq": nq, "ad": ad})
        for n in (1, 2, 3):
            r.append({"name": "ising-%d%s" % (n, "-ad" if ad else ""), "h": "ising", "n": n, "ad": ad, "evals": 2, "max": n == 2})
        r.append({"name": "ising-default%s" % ("-ad" if ad else ""), "h": "isingdef", "ad": ad})
    r.append({"name": "ising-grape-order", "h": "ising", "n": 2, "ad": False, "evals": 2, "first": True, "max": False})
    for n in (5, 9):
        r.append({"name": "onequbit-%d-long" % n, "h": "onequbit", "n": n, "state": n % 4, "evals": 1})
        r.append({"name": "fields-%d-long" % n, "h": "fields", "n": n, "state": n % 3, "evals": 1})
        r.append({"name": "ising-%d-long" % n, "h": "ising", "n": n, "ad": n == 5, "evals": 1, "max": n == 5})
    r.append({"name": "onequbit-evals", "h": "onequbit", "n": 1, "state": 1, "evals": 9, "drift": True, "factor": 1.0})
    r.append({"name": "onequbit-evals-noisy", "h": "onequbit", "n": 1, "state": 1, "evals": 7, "noisy": True})
    r.append({"name": "fields-evals", "h": "fields", "n": 1, "state": 2, "evals": 9})
    r.append({"name": "rosen-many", "h": "rosen", "n": 9})
    r.append({"name": "ising-h-7", "h": "isingham", "nq": 7, "ad": False})
    if th:
        r.append({"name": "ising-4", "h": "ising", "n": 4, "ad": False, "evals": 3, "max": True})
        r.append({"name": "onequbit-4", "h": "onequbit", "n": 4, "state": 2, "evals": 3})
    return r


def slices(ctx, Ms, pick):
    """the wanted slice generators: their exponentials (given unitaries when symbolic, the real ones otherwise)"""
    out = []
    for M, U in zip(Ms, pick):
        if ctx.symbolic:
            lst = ctx.ufs.setdefault("matrix:expm", [])
            A = sarr._obj(sarr.mkarr(M))
            lst.append((A, np.array(U, dtype=complex)))
            out.append([list(r) for r in U])
        else:
            from scipy.linalg import expm
            out.append(two(expm(np.array(M, dtype=complex))))
    return out


def times_i(z, s):
    """-i * s * z for a complex number z given as (re, im)"""
    re, im = z
    return s * im, -s * re


def generator(ctx, H, dt):
    return [[cplx(ctx, *times_i(z, dt)) for z in row] for row in H]


def evolve(Us, state):
    v = [[x] for x in state]
    for U in Us:
        v = product([[complex(x) for x in r] for r in U], v)
    return [complex(r[0]) for r in v]


def overlap(t, v):
    return abs(sum(a.conjugate() * b for a, b in zip(t, v)))**2


def states(cfg, d):
    a, b = STATES[cfg["state"]]
    if a is not None:
        d["initial_state"], d["target_state"] = a, b
    ev = {"np": np}
    return ([complex(x) for x in eval(a or "[1.0, 0.0]", ev)], [complex(x) for x in eval(b or "[1.0/np.sqrt(2), -1j/np.sqrt(2)]", ev)])


def grid(ctx, T, n):
    """time grid of a pulse with n samples (at least two points)"""
    m = max(n, 2)
    return [T * i / (m - 1) for i in range(m)], T / (m - 1)


def noise_of(ctx, cfg, env):
    """the draws of the noise, in the order of the evaluations"""
    us = [ctx.real("u%d" % i, 0, 1, open_hi=True) for i in range(cfg.get("evals", 2))]
    const_draws(env, us)
    return us


def judge(ctx, cfg, k, got, clean, us, nf, sgn, prev):
    """figure of merit and standard deviation of evaluation k"""
    v = got["FoM"]
    if not cfg.get("noisy"):
        ctx.check(ctx.close(v, sgn * clean, 1e-5), "figure-of-merit")
        return None
    d = sgn * v - clean
    ctx.check(ctx.And(ctx.le(d, nf, 1e-6), ctx.le(-nf, d, 1e-6)), "noise")
    if prev is not None:
        # evenly spread over the whole range
        ctx.check(ctx.close(abs(d - prev), 2 * nf * abs(us[k] - us[k - 1]), 1e-5), "noise")
    ctx.check(ctx.close(got["std"], 0.6827 * nf, 1e-5), "std")
    return d


def onequbit(ctx, cfg):
    env = setup(ctx)
    m = q("quocslib.optimalcontrolproblems.OneQubitProblem")
    n, nf = cfg["n"], None
    d = {}
    psi0, tgt = states(cfg, d)
    us = noise_of(ctx, cfg, env)
    if cfg.get("default"):
        d1 = d2 = 0.1
        F = m.OneQubit()
    else:
        d1, d2 = ctx.real("delta1", -2, 2), ctx.real("delta2", -2, 2)
        d.update({"delta1": d1, "delta2": d2})
        if cfg.get("noisy"):
            nf = ctx.real("noise", 0.01, 0.5)
            d.update({"is_noisy": True, "noise_factor": nf})
        if cfg.get("drift"):
            dr = ctx.real("drift", -0.1, 0.1)
            d.update({"include_drift": True, "linear_drift_val_over_iteration": dr})
        if "factor" in cfg:
            d["optimization_factor"] = cfg["factor"]
        F = m.OneQubit(args_dict=d)
    sgn = -1.0 if cfg.get("factor") == 1.0 else 1.0
    hist, prev = [], None
    for k in range(cfg["evals"]):
        amp = reals(ctx, "a%d_" % k, n, -3, 3)
        T = ctx.real("T%d" % k, 0.5, 4)
        t, dt = grid(ctx, T, n)
        p = []
        if cfg.get("par"):
            d1 = ctx.real("p%d" % k, -2, 2)
            p = [d1]
        Ms = [generator(ctx, [[(d1 / 2, 0.0), ((a + d2) / 2, 0.0)], [((a + d2) / 2, 0.0), (-d1 / 2, 0.0)]], dt) for a in amp]
        Us = slices(ctx, Ms, [MENU[(k * n + i) % len(MENU)] for i in range(n)])
        clean = 1 - overlap(tgt, evolve(Us, psi0))
        if cfg.get("drift"):
            clean = clean + dr * k
        r = F.get_FoM(pulses=[arr(ctx, amp)], parameters=p, timegrids=[arr(ctx, t)])
        prev = judge(ctx, cfg, k, r, clean, us, nf, sgn, prev)
        if cfg.get("drift") and not cfg.get("noisy"):
            ctx.check(ctx.close(r["FoM"], sgn * clean, 1e-5), "drift")
        if cfg.get("default"):
            ctx.check(ctx.close(r["FoM"], clean, 1e-5), "defaults")
        hist.append(r["FoM"])
    eq(ctx, F.FoM_list, hist, "history", 1e-9)
    F.set_save_path("/vfs/somewhere")
    F.save_FoM()
    got = [v for p, v in env.vfs.items() if p.startswith("/vfs/somewhere")]
    ctx.check(len(got) == 1, "saved-history")
    eq(ctx, saved_numbers(got[0]), hist, "saved-history", 1e-9)


def saved_numbers(ent):
    if ent.get("obj") is None:
        return [float(x) for x in ent["text"].split()]
    return [x for r in ent["obj"] for x in r["row"]]


def fields(ctx, cfg):
    env = setup(ctx)
    m = q("quocslib.optimalcontrolproblems.OneQubitProblem_2fields")
    n, nf = cfg["n"], None
    d = {}
    psi0, tgt = states(cfg, d)
    us = noise_of(ctx, cfg, env)
    if cfg.get("default"):
        d1 = d2 = 0.1
        F = m.OneQubit2Fields()
    else:
        d1, d2 = ctx.real("delta1", -2, 2), ctx.real("delta2", -0.9, 2)
        d.update({"delta1": d1, "delta2": d2})
        if cfg.get("noisy"):
            nf = ctx.real("noise", 0.01, 0.05)
            d.update({"is_noisy": True, "noise_factor": nf})
        F = m.OneQubit2Fields(args_dict=d)
    prev = None
    for k in range(cfg["evals"]):
        amp, ph = reals(ctx, "a%d_" % k, n, -3, 3), reals(ctx, "p%d_" % k, n, -3, 3)
        t, dt = grid(ctx, ctx.real("T%d" % k, 0.5, 4), n)
        Ms = []
        for a, f in zip(amp, ph):
            x, y = a * (1 + d2) * fn(ctx, "cos", f), a * (1 + d2) * fn(ctx, "sin", f)
            Ms.append(generator(ctx, [[(d1 / 2, 0.0), (x, -y)], [(x, y), (-d1 / 2, 0.0)]], dt))
        Us = slices(ctx, Ms, [MENU[(k * n + i) % len(MENU)] for i in range(n)])
        clean = 1 - overlap(tgt, evolve(Us, psi0))
        r = F.get_FoM(pulses=[arr(ctx, amp), arr(ctx, ph)], parameters=[], timegrids=[arr(ctx, t), arr(ctx, t)])
        if cfg.get("noisy"):
            # the figure of merit is the modulus: only comparable when the noise cannot change the sign
            ctx.assume(clean >= nf)
        prev = judge(ctx, cfg, k, r, clean, us, nf, 1.0, prev)
        if cfg.get("default"):
            ctx.check(ctx.close(r["FoM"], clean, 1e-5), "defaults")


def rosen(ctx, cfg):
    env = setup(ctx)
    ctx.poly = True
    m = q("quocslib.optimalcontrolproblems.RosenbrockProblem")
    n, nf = cfg["n"], None
    us = noise_of(ctx, cfg, env)
    if cfg.get("default"):
        F = m.Rosenbrock()
    elif cfg.get("noisy"):
        nf = ctx.real("noise", 0.01, 0.5)
        F = m.Rosenbrock(args_dict={"is_noisy": True, "noise_factor": nf})
    else:
        F = m.Rosenbrock(args_dict={})
    prev = None
    for k in range(2):
        x = reals(ctx, "x%d_" % k, n, -2, 2)
        clean = 0.0
        for a, b in zip(x, x[1:]):
            clean = clean + 100.0 * (b - a * a) * (b - a * a) + (1 - a) * (1 - a)
        r = F.get_FoM(pulses=[], parameters=list(x), timegrids=[])
        prev = judge(ctx, cfg, k, r, clean, us, nf, 1.0, prev)
        if cfg.get("default"):
            ctx.check(ctx.close(r["FoM"], clean, 1e-5), "defaults")


def ising_module(ad):
    return q("quocslib.optimalcontrolproblems." + ("IsingModelADProblem" if ad else "IsingModelProblem"))


def spin(s, j, n):
    """+1 or -1: sigma_z of qubit j in basis state s"""
    return -1.0 if (s >> (n - 1 - j)) & 1 else 1.0


def drift(J, g, n):
    """diagonal of -J sum z_j z_j+1 - g sum z_j z_j+2 on a ring"""
    out = []
    for s in range(2**n):
        a = sum(spin(s, j, n) * spin(s, (j + 1) % n, n) for j in range(n))
        b = sum(spin(s, j, n) * spin(s, (j + 2) % n, n) if (j + 2) % n != j else spin(s, j, n) for j in range(n))
        out.append(-J * a - g * b)
    return out


def control(n):
    D = 2**n
    return [[1.0 if bin(r ^ c).count("1") == 1 else 0.0 for c in range(D)] for r in range(D)]


def pure(n, k):
    D = 2**n
    return [[1.0 if r == c == k else 0.0 for c in range(D)] for r in range(D)]


def same_matrix(ctx, got, want, label, tol=1e-6):
    a = two(got)
    ctx.check(len(a) == len(want), label)
    conds = [ctx.And(ctx.close(re_(x), re_(y), tol), ctx.close(im_(x), im_(y), tol)) for r, s in zip(a, want) for x, y in zip(r, s)]
    ctx.check(ctx.And(*conds), label)


def isingham(ctx, cfg):
    setup(ctx)
    n = cfg["nq"]
    J, g = ctx.real("J", -3, 3), ctx.real("g", -3, 3)
    F = ising_module(cfg["ad"]).IsingModel(args_dict={"n_qubits": n, "J": J, "g": g, "n_slices": 2})
    dg = drift(J, g, n)
    if n > 2:
        # (two qubits have no next nearest neighbour)
        same_matrix(ctx, F.get_drift_Hamiltonian(), [[dg[r] if r == c else 0.0 for c in range(2**n)] for r in range(2**n)], "hamiltonian")
    same_matrix(ctx, F.get_control_Hamiltonians(), control(n), "hamiltonian")
    same_matrix(ctx, F.get_initial_state(), pure(n, 0), "states")
    same_matrix(ctx, F.get_target_state(), pure(n, 2**n - 1), "states")


def isingdef(ctx, cfg):
    setup(ctx)
    F = ising_module(cfg["ad"]).IsingModel()
    same_matrix(ctx, F.get_initial_state(), pure(5, 0), "defaults")
    ctx.check(F.n_slices == 100, "defaults")
    dg = drift(1.0, 2.0, 5)
    same_matrix(ctx, F.get_drift_Hamiltonian(), [[dg[r] if r == c else 0.0 for c in range(32)] for r in range(32)], "defaults")


def kron(A, B):
    return [[a * b for a in r for b in s] for r in A for s in B]


def ising(ctx, cfg):
    setup(ctx)
    n, ad, nq = cfg["n"], cfg["ad"], 2
    if ad and not ctx.symbolic:
        import jax
        jax.config.update("jax_enable_x64", True)
    J, g = ctx.real("J", -2, 2), ctx.real("g", -2, 2)
    d = {"n_qubits": nq, "J": J, "g": g, "n_slices": n}
    if not ad:
        d["is_maximization"] = cfg["max"]
    F = ising_module(ad).IsingModel(args_dict=d)
    dg, X = [x[i] for i, x in enumerate(two(F.get_drift_Hamiltonian()))], control(nq)
    sgn = 1.0 if ad or cfg["max"] else -1.0
    hist = []
    for k in range(cfg["evals"]):
        amp = reals(ctx, "a%d_" % k, n, -3, 3)
        t, _ = grid(ctx, ctx.real("T%d" % k, 0.5, 4), n)
        if n == 1:
            t = [t[1]]
        dt = t[-1] / n
        Ms = []
        for a in amp:
            H = [[(a * X[r][c] + (re_(dg[r]) if r == c else 0.0), 0.0) for c in range(4)] for r in range(4)]
            Ms.append(generator(ctx, H, dt))
        pick = [kron(MENU[(k * n + i) % len(MENU)], MENU[(k * n + 2 * i + 3) % len(MENU)]) for i in range(n)]
        Us = slices(ctx, Ms, pick)
        want = overlap([0, 0, 0, 1.0], evolve(Us, [1.0, 0, 0, 0]))
        kw = dict(pulses_list=jn(ctx, [amp], ad), time_grids_list=jn(ctx, [t], ad), parameters_list=[])
        if cfg.get("first"):
            P = F.get_propagator(**kw)
            for U, W in zip(P, Us):
                same_matrix(ctx, U, W, "propagators", 1e-5)
        r = F.get_FoM(pulses=jn(ctx, [amp], ad), parameters=[], timegrids=jn(ctx, [t], ad))
        v = r["FoM"]
        v = v.real if isinstance(v, (complex, sym.SymComplex)) or hasattr(v, "imag") and not sym.is_sym(v) else v
        ctx.check(ctx.close(v, sgn * want, 2e-4), "figure-of-merit")
        hist.append(r["FoM"])
    if not ad:
        eq(ctx, F.FoM_list, hist, "history", 1e-9)


def jn(ctx, rows, ad):
    if not ad:
        return [arr(ctx, r) for r in rows]
    if ctx.symbolic:
        return sarr.mkarr(rows, True)
    import jax.numpy as jnp
    return jnp.asarray(np.array(rows))


HARNESS = {"onequbit": onequbit, "fields": fields, "rosen": rosen, "isingham": isingham, "isingdef": isingdef, "ising": ising}
