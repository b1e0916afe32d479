"""C09 Nelder-Mead search against a reference written from the published algorithm"""
from .alg import *
from .c10 import function, num

BOUNDS = ("dimension 1-4, whole start simplex (or start point) symbolic in [-3, 3], all figures of merit symbolic and pairwise "
          "different by 1e-6 at least, 6-11 evaluations, standard and adaptive coefficients; both called directly and from DirectSearch; "
          "long runs of 30 (thorough: 80) evaluations in up to 5 dimensions, values in bands around those of two given functions")
OUTSIDE = "ties between figures of merit, stops in the middle of a step (C07), drift compensation (C20)"
EXPECT = ["requested-point", "result-value", "result-point", "evaluations-counted", "start-untouched"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    th = tier == "thorough"
    r = []
    for ad in (False, True):
        for dim, n in ((1, 6), (2, 6), (3, 6), (4, 7)):
            r.append({"name": "d%d%s" % (dim, "-adaptive" if ad else ""), "h": "direct", "dim": dim, "n": n + (2 if th else 0), "adaptive": ad,
                      "simplex": True, "sorted": dim > 2})
        # longer from a fixed start: shrink steps several times
        r.append({"name": "shrink%s" % ("-adaptive" if ad else ""), "h": "direct", "dim": 2, "n": 8 if not th else 10, "adaptive": ad,
                  "simplex": True, "bad": [3, 4]})
        for dim in (1, 2, 3, 5):
            for fn in ("bowl", "valley"):
                # long runs on a given function; the values are symbolic in a band around those of the function
                r.append({"name": "long-%s-%d%s" % (fn, dim, "-adaptive" if ad else ""), "h": "direct", "dim": dim, "n": 30 if not th else 80,
                          "adaptive": ad, "simplex": True, "long": fn})
    r.append({"name": "no-simplex-1", "h": "direct", "dim": 1, "n": 5, "adaptive": False, "simplex": False})
    r.append({"name": "no-simplex-2", "h": "direct", "dim": 2, "n": 5, "adaptive": False, "simplex": False})
    r.append({"name": "no-simplex-3", "h": "direct", "dim": 3, "n": 4, "adaptive": True, "sorted": True, "simplex": False})
    return r


def coefficients(dim, adaptive):
    # reflection, expansion, contraction, shrink (Nelder-Mead 1965; Gao and Han 2012)
    return (1.0, 1 + 2.0 / dim, 0.75 - 0.5 / dim, 1 - 1.0 / dim) if adaptive else (1.0, 2.0, 0.5, 0.5)


class Reference:
    """says which point has to be evaluated next"""

    def __init__(self, ctx, simplex, coeff):
        self.ctx, self.coeff = ctx, coeff
        self.S = None
        self.g = self.steps([list(p) for p in simplex])
        self.next = next(self.g)

    def tell(self, f):
        self.next = self.g.send(f)

    def between(self, S):
        """between two iterations"""
        return S
        yield

    def less(self, a, b):
        c = a < b
        return self.ctx.branch(ctx_b(c)) if sym.is_sym(c) else bool(c)

    def sort(self, S):
        r = []
        for s in S:
            i = 0
            while i < len(r) and not self.less(s[1], r[i][1]):
                i += 1
            r.insert(i, s)
        return r

    def steps(self, pts):
        rho, chi, psi, sigma = self.coeff
        S = []
        for p in pts:
            f = yield p
            S.append((p, f))
        dim = len(pts) - 1
        while True:
            S = self.sort(S)
            if self.S is not None:
                S = yield from self.between(S)
            self.S = S
            cen = [sum([s[0][i] for s in S[:-1]]) / dim for i in range(dim)]
            worst, best = S[-1], S[0]
            away = lambda t: [c + t * (c - w) for c, w in zip(cen, worst[0])]
            xr = away(rho)
            fr = yield xr
            if self.less(fr, best[1]):
                xe = away(rho * chi)
                fe = yield xe
                S[-1] = (xe, fe) if self.less(fe, fr) else (xr, fr)
                continue
            if self.less(fr, S[-2][1]):
                S[-1] = (xr, fr)
                continue
            if self.less(fr, worst[1]):
                xc = away(psi * rho)
                fc = yield xc
                if not self.less(fr, fc):
                    S[-1] = (xc, fc)
                    continue
            else:
                xc = away(-psi)
                fc = yield xc
                if self.less(fc, worst[1]):
                    S[-1] = (xc, fc)
                    continue
            for j in range(1, dim + 1):
                x = [b + sigma * (v - b) for b, v in zip(best[0], S[j][0])]
                f = yield x
                S[j] = (x, f)


class Vals(list):
    """figures of merit so far; tie: some two of them are (nearly) the same, so that their order is open"""
    tie = False

    def add(self, ctx, v):
        for o in self:
            self.tie = ctx.Or(self.tie, ctx.And(v - o < 1e-6, o - v < 1e-6))
        self.append(v)


class Known(Vals):
    """figures of merit in ranges that do not meet"""

    def add(self, ctx, v):
        self.append(v)


def direct(ctx, cfg):
    setup(ctx)
    dim, n = cfg["dim"], cfg["n"]
    x0 = reals(ctx, "x0_", dim, -3, 3)
    if cfg.get("long"):
        simplex = [[0.25 * i - 0.5 + (0.75 + 0.125 * i if i + 1 == j else 0.0) for i in range(dim)] for j in range(dim + 1)]
        given = np.array(simplex)
    elif cfg["simplex"]:
        simplex = [reals(ctx, "v%d_" % i, dim, -3, 3) for i in range(dim + 1)]
        given = sym_matrix(ctx, simplex)
    else:
        simplex, given = [x0], None
        for k in range(dim):
            y = list(x0)
            y[k] = ctx.ite(x0[k] == 0, 0.00025, 1.05 * x0[k])
            simplex.append(y)
    ref = Reference(ctx, simplex, coefficients(dim, cfg["adaptive"]))
    asked, vals, seen = [], Vals() if not cfg.get("long") else Known(), []

    def f(x, *a):
        xs = list(cells(x))
        ctx.check(len(xs) == dim, "requested-point")
        ctx.check(ctx.Or(ctx.allclose(xs, ref.next, 1e-9), vals.tie), "requested-point", "evaluation %d" % len(asked))
        if cfg.get("long"):
            c = function(cfg["long"], [num(t) for t in xs])
            if any(abs(c - o) < 1e-6 * (1 + abs(c)) for o in seen):
                raise Halt
            seen.append(c)
            v = ctx.real("f%d" % len(vals), c - 1e-7, c + 1e-7)
        else:
            v = ctx.real("f%d" % len(vals), -100, 100)
        if cfg.get("sorted") and 0 < len(vals) <= dim:
            ctx.assume(v >= vals[-1] + 1e-6)
        if len(vals) in cfg.get("bad", []):
            for o in vals[:-1] if len(vals) == 4 else vals:
                ctx.assume(v > o)
        asked.append(xs)
        vals.add(ctx, v)
        ref.tell(v)
        if len(vals) > n + dim + 3:
            raise Halt
        return v
    NM = q("quocslib.gradientfreemethods.NelderMead").NelderMead
    nm = NM({"is_adaptive": cfg["adaptive"]}, {"max_eval": n, "xatol": -1.0, "fatol": -1.0}, callback=lambda: True)
    if hasattr(nm.sc_obj, "reset_direct_search_start_time"):
        nm.sc_obj.reset_direct_search_start_time()
    x0a = arr(ctx, x0)
    try:
        res = nm.run_dsm(f, x0a, initial_simplex=given)
    except Halt:
        # the values of the function came too close to each other
        ctx.check(bool(cfg.get("long")), "requested-point")
        return
    if given is not None:
        eq(ctx, cells(given), [v for p in simplex for v in p], "start-untouched", 1e-12)
    eq(ctx, cells(x0a), x0, "start-untouched", 1e-12)
    ctx.check(res["NfunevalsUsed"] == len(vals), "evaluations-counted")
    best = res["F_min_val"]
    ctx.check(ctx.And(ctx.Or(*[best == v for v in vals]), *[best <= v for v in vals]), "result-value")
    got = list(cells(res["X_opti_vec"]))
    ctx.check(ctx.Or(vals.tie, *[ctx.And(best == v, ctx.allclose(got, p, 1e-9)) for v, p in zip(vals, asked)]), "result-point")


def sym_matrix(ctx, rows):
    if ctx.symbolic:
        return sarr.mkarr([v for r in rows for v in r]).reshape((len(rows), len(rows[0])))
    return np.array([[float(v) for v in r] for r in rows])


HARNESS = {"direct": direct}
