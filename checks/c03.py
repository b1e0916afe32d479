"""C03 each pulse basis evaluates its parametrisation at the grid times"""
from .common import *

BOUNDS = ("every basis of the map except the unfinished Walsh; 1-2 basis vectors, 2-4 bins; all coefficients symbolic in "
          "[-4, 4], super parameters symbolic in their limits, final time symbolic in [0.5, 4] or one of {0.7, 1, 2.5}; sin, cos, "
          "erf, arccos as uninterpreted functions (equal arguments, decided by z3, give equal values); "
          "up to 10 Fourier, 5 Chebyshev and Sinc, 6 Sigmoid vectors with given super parameters")
OUTSIDE = "numerical accuracy of sin/cos/erf/arccos, symbolic super parameters of more than 2 basis vectors, vanishing variation coefficients"
EXPECT = ["values", "amount", "sampled-on-grid", "super-parameters-kept", "step-times-inside"]
BUDGET = {"quick": 200, "thorough": 700}
KEYS = {"SigmoidTimeDep": {"sigma": 0.125, "offset": 0.25, "tau_variation": 0.5},
        "SigmoidSigmas": {"sigma": 0.125, "offset": 0.25, "sigma_variation": 0.5},
        "Sigmoid": {"sigma": 0.125, "offset": 0.25}, "Sinc": {"basis_max": 1.5}, "Fourier": {}, "Chebyshev": {}}


def configs(tier):
    r = []
    th = tier == "thorough"
    for k in ("Fourier", "Chebyshev", "Sinc", "Sigmoid", "SigmoidTimeDep", "SigmoidSigmas"):
        for nv in (1, 2):
            for T in (0.7, 2.5) if th or nv == 1 else (2.5, ):
                n = 3 if nv == 1 or not th else 4
                r.append({"name": "%s-%d-T%s" % (k, nv, T), "h": "basis", "kind": k, "nv": nv, "T": T, "bins": n, "kw": KEYS[k]})
    for k in ("Fourier", "Sigmoid", "Sinc", "Chebyshev", "SigmoidTimeDep", "SigmoidSigmas"):
        r.append({"name": k + "-symT", "h": "basis", "kind": k, "nv": 1, "T": None, "bins": 2, "kw": KEYS[k]})
        r.append({"name": k + "-defaults", "h": "basis", "kind": k, "nv": 1, "T": 1.0, "bins": 2, "kw": {}})
    for nv in (1, 2):
        for tv in (None, 0.5):
            for sv in (None, 0.5):
                for off in (None, 0.25):
                    kw = {"sigma": 0.125}
                    kw.update({} if tv is None else {"tau_variation": tv})
                    kw.update({} if sv is None else {"sigma_variation": sv})
                    kw.update({} if off is None else {"offset": off})
                    r.append({"name": "SigmoidAllParas-%d-%s-%s-%s" % (nv, tv, sv, off), "h": "basis", "kind": "SigmoidAllParas",
                              "nv": nv, "T": 2.5, "bins": 2, "kw": kw})
    for k, nv in (("Fourier", 3), ("Fourier", 6), ("Fourier", 10), ("Chebyshev", 5), ("Sinc", 3), ("Sinc", 5), ("Sigmoid", 3), ("Sigmoid", 6), ("SigmoidTimeDep", 4),
                  ("SigmoidSigmas", 4), ("SigmoidAllParas", 3)):
        kw = dict(KEYS.get(k, {"sigma": 0.125, "tau_variation": 0.5, "sigma_variation": 0.5}))
        r.append({"name": "%s-many-%d" % (k, nv), "h": "basis", "kind": k, "nv": nv, "T": 4.0 if k.startswith("Sig") else 2.5, "bins": 3 if k.startswith("Sig") else 7,
                  "kw": kw, "given": True})
    for k, kw in (("SigmoidSigmas", {"sigma": 0.25, "offset": 0.125}), ("SigmoidSigmas", {"sigma": 0.125, "offset": 0.125, "sigma_variation": 0.5}),
                  ("SigmoidSigmas", {"sigma": 0.125, "offset": 2.0**-20}),
                  ("SigmoidAllParas", {"sigma": 0.25, "offset": 0.125, "sigma_variation": 0.5}),
                  ("SigmoidTimeDep", {"sigma": 0.25, "offset": 0.125}), ("Sigmoid", {"sigma": 0.25, "offset": 0.125})):
        r.append({"name": "%s-wide-%s" % (k, len(r)), "h": "basis", "kind": k, "nv": 1, "T": 2.5, "bins": 2, "kw": kw})
    r.append({"name": "Sinc-centre", "h": "basis", "kind": "Sinc", "nv": 1, "T": 1.0, "bins": 3, "kw": {}, "draw": 0.125})
    r.append({"name": "Piecewise", "h": "basis", "kind": "PiecewiseBasis", "nv": 0, "T": None, "bins": 4, "kw": {}})
    for k in ("Fourier", "SigmoidTimeDep", "SigmoidAllParas"):
        r.append({"name": k + "-pair", "h": "pair", "kind": k, "kw": dict(KEYS.get(k, {"sigma": 0.125, "tau_variation": 0.5}))})
    for nv in (1, 2):
        for k in ("SigmoidTimeDep", "SigmoidAllParas"):
            r.append({"name": "steps-%s-%d" % (k, nv), "h": "steps", "kind": k, "nv": nv})
    for c in r:
        c["fork_ite"] = c.get("kind", "").startswith("Sigmoid")
    return r


def step(ctx, t, c, sigma):
    return 0.5 * (fn(ctx, "erf", (t - c) / (math.sqrt(2) * sigma)) + 1)


def clipped_taus(ctx, taus, off, T):
    """step times: kept inside [off, T - off], several steps are moved by the affine map onto the allowed interval"""
    lo, hi = off, T - off
    if len(taus) == 1:
        return [ctx.ite(taus[0] < lo, lo, ctx.ite(taus[0] > hi, hi, taus[0]))]
    a, b = ctx.min(*taus), ctx.max(*taus)
    if ctx.branch(ctx_e(ctx.And(a >= lo, b <= hi))):
        return list(taus)
    a2, b2 = ctx.min(a, lo), ctx.max(b, hi)
    return [T / 2 + (x - (a2 + b2) / 2) * (T - 2 * off) / (b2 - a2) for x in taus]


def ctx_e(c):
    return sym.bexpr(c) if sym.is_sym(c) else bool(c)


def reference(ctx, kind, x, w, t, T, kw, nv, var):
    sig = kw.get("sigma", 0.1 if kind == "Sigmoid" else 1e-10)
    off = kw.get("offset", 0.1 if kind == "Sigmoid" else -10 * sig)
    out = []
    if kind == "PiecewiseBasis":
        return list(x)
    if kind.startswith("Sigmoid"):
        A = x[:nv + 1]
        rest = x[nv + 1:]
        taus, sigs = list(w), [sig] * nv
        tv, sv = kw.get("tau_variation", 0.1 if kind == "SigmoidTimeDep" else 0), kw.get("sigma_variation", 1.0 if kind == "SigmoidSigmas" else 0)
        if kind == "SigmoidTimeDep" or kind == "SigmoidAllParas" and tv:
            d, rest = rest[:nv], rest[nv:]
            if nv > 1:
                # several steps outside of the window are the subject of the steps-* configurations
                for a, b in zip(taus, d):
                    v = a + b * tv / var
                    ctx.assume(ctx.And(v >= off, v <= T - off))
            taus = clipped_taus(ctx, [a + b * tv / var for a, b in zip(taus, d)], off, T)
        if kind == "SigmoidSigmas" or kind == "SigmoidAllParas" and sv:
            norm = 1.0 if kind == "SigmoidSigmas" else var
            ds = [abs(v) * sv / norm for v in rest]
            sigs = [sig + v for v in ds]
            if off >= 1e-10:
                sigs = [sig + ((T / 2 - abs(T / 2 - c)) * sig / off - sig) * (1 - fn(ctx, "cos", math.pi * v)) / 2
                        for c, v in zip(taus, ds)]
        for s in t:
            v = A[0] * step(ctx, s, off, sig)
            for i in range(nv):
                v = v + A[i + 1] * step(ctx, s, taus[i], sigs[i])
            if kind != "SigmoidAllParas" or off >= 1e-10:
                tot = A[0]
                for a in A[1:]:
                    tot = tot + a
                v = v - tot * step(ctx, s, T - off, sig)
            out.append(v)
        return out
    for i, s in enumerate(t):
        v = 0.0
        for k in range(nv):
            if kind == "Fourier":
                a = 2 * math.pi * w[k] * s / T
                v = v + x[2 * k] * fn(ctx, "sin", a) + x[2 * k + 1] * fn(ctx, "cos", a)
            elif kind == "Chebyshev":
                a = fn(ctx, "arccos", -1 + 1e-10 + 2 * (1 - 1e-10) * s / T)
                v = v + x[2 * k] * fn(ctx, "cos", w[k] * a + x[2 * k + 1])
            elif kind == "Sinc":
                y = 2 * math.pi * kw.get("basis_max", 1.0) * (s - w[k]) / T
                if not sym.is_sym(y):
                    v = v + (x[k] if abs(y) < 1e-12 else x[k] * math.sin(y) / y)
                else:
                    ctx.assume(abs(y) >= 1e-3)
                    v = v + x[k] * fn(ctx, "sin", y) / y
        out.append(v)
    return out


def amount(kind, nv, kw, bins):
    n = {"PiecewiseBasis": bins, "Fourier": 2 * nv, "Chebyshev": 2 * nv, "Sinc": nv, "Sigmoid": nv + 1, "SigmoidTimeDep": 2 * nv + 1,
         "SigmoidSigmas": 2 * nv + 1, "SigmoidAllParas": nv + 1}[kind]
    if kind == "SigmoidAllParas":
        n += nv * (("tau_variation" in kw) + ("sigma_variation" in kw))
    return n


def make(ctx, kind, nv, n, kw, draws, var=0.5, wl=(0.25, 2.25)):
    env = ENV()
    const_draws(env, draws)
    return pulse_dict(kind=kind, bins=n, var=var, nv=nv, lower=-1e5, upper=1e5,
                      basis_kw=dict(kw, random_super_parameter_distribution={"distribution_name": "Uniform", "lower_limit": wl[0],
                                                                             "upper_limit": wl[1]}))


def basis(ctx, cfg):
    setup(ctx)
    kind, nv, n, kw = cfg["kind"], cfg["nv"], cfg["bins"], cfg["kw"]
    T = cfg["T"] if cfg["T"] is not None else ctx.real("T", 0.5, 4)
    symw = cfg["T"] is not None
    draws = [ctx.real("draw%d" % i, 0, 1, open_hi=True) for i in range(max(nv, 1))] if symw else [0.375, 0.625]
    if cfg.get("given"):
        draws = [((7 * i + 3) % 16) / 16.0 for i in range(nv)]
    if "draw" in cfg:
        draws = [cfg["draw"]]
    var = 0.5
    d = make(ctx, kind, nv, n, kw, draws, var)
    c = controls([d], [time_dict("T", T)], [])
    c.select_basis()
    m = amount(kind, nv, kw, n)
    ctx.check(c.get_control_parameters_number() == m, "amount")
    w = [0.25 + (i + draws[i]) * 2.0 / nv for i in range(nv)]
    x = reals(ctx, "x", m, -4, 4)
    if cfg.get("given"):
        # the steps neither meet nor become too sharp
        for v in x[nv + 1 if kind.startswith("Sig") else m:]:
            ctx.assume(ctx.And(v >= -0.0625, v <= 0.0625))
    p, tg, _ = c.get_controls_lists(arr(ctx, x))
    t = [T * i / (n - 1) for i in range(n)]
    eq(ctx, cells(tg[0]), t, "sampled-on-grid", 1e-9)
    if nv:
        eq(ctx, list(c.get_random_super_parameter()[0]), w, "super-parameters-kept", 1e-9)
    want = reference(ctx, kind, x, w, t, T, kw, nv, var)
    eq(ctx, cells(p[0]), want, "values", 1e-4 if kind.startswith("Sigmoid") and not kw else 1e-6)
    if nv:
        eq(ctx, list(c.get_random_super_parameter()[0]), w, "super-parameters-kept", 1e-9)


def pair(ctx, cfg):
    """evaluating a pulse leaves no trace: the same coefficients give the same pulse after other evaluations"""
    setup(ctx)
    kind, kw = cfg["kind"], cfg["kw"]
    d = make(ctx, kind, 1, 2, kw, [0.375])
    c = controls([d], [time_dict("T", 2.5)], [])
    c.select_basis()
    m = c.get_control_parameters_number()
    x, y = reals(ctx, "x", m, -4, 4), reals(ctx, "y", m, -4, 4)
    a = cells(c.get_controls_lists(arr(ctx, x))[0][0])
    c.get_controls_lists(arr(ctx, y))
    b = cells(c.get_controls_lists(arr(ctx, x))[0][0])
    eq(ctx, a, b, "values", 1e-7)


def steps(ctx, cfg):
    """sharp steps: with all but one amplitude zero the pulse is 0 before and the amplitude after the (moved) step time,
    so no step ever leaves the window [offset, final time - offset]"""
    setup(ctx)
    kind, nv = cfg["kind"], cfg["nv"]
    T, off, sig = 2.0, 0.25, 2.0**-30
    kw = {"sigma": sig, "offset": off, "tau_variation": 1.0}
    draws = [ctx.real("draw%d" % i, 0, 1, open_hi=True) for i in range(nv)]
    # grid times 0, 0.2, ..: the first and last lie outside the window
    d = make(ctx, kind, nv, 11, kw, draws, var=1.0, wl=(0.0, 2.0))
    c = controls([d], [time_dict("T", T)], [])
    c.select_basis()
    amp, dt = ctx.real("amp", 0.5, 3), [ctx.real("dt%d" % i, -2, 2) for i in range(nv)]
    A = [0.0] * (nv + 1)
    A[-1] = amp
    p = cells(c.get_controls_lists(arr(ctx, A + dt))[0][0])
    w = [(i + draws[i]) * 2.0 / nv for i in range(nv)]
    if nv > 1:
        ctx.assume(abs(w[0] + dt[0] - w[1] - dt[1]) >= 1e-6)
    taus = clipped_taus(ctx, [a + b for a, b in zip(w, dt)], off, T)
    for v in taus:
        ctx.check(ctx.And(v >= off - 1e-7, v <= T - off + 1e-7), "step-times-inside")
    want = []
    for i in range(11):
        s = 0.2 * i
        want.append(amp * (step(ctx, s, taus[-1], sig) - step(ctx, s, T - off, sig)))
    eq(ctx, p, want, "values", 1e-5)


HARNESS = {"basis": basis, "pair": pair, "steps": steps}
