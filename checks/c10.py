"""C10 CMA-ES search against a reference written from the published algorithm"""
from .alg import *

BOUNDS = ("dimension 1-4, populations of 4-7 and the default size, 2-3 generations (6-20 generations with dimension up to 5 and populations up to 12 when the order of the figures of merit is given); figures of merit symbolic (every order of the "
          "population); first generation also with symbolic start point, spreads and draws; small and large draws so that the path "
          "length indicator takes both values")
OUTSIDE = "ties between figures of merit, accuracy of the eigendecomposition, more than 3 generations with every order of the figures of merit"
EXPECT = ["first-point", "first-generation", "requested-point", "result-pair", "evaluations-counted", "generation-complete", "start-untouched"]
BUDGET = {"quick": 240, "thorough": 800}
Z = [0.31, -1.2, 0.77, 1.6, -0.45, -0.9, 2.1, 0.12, -1.7, 0.58, -0.23, 1.05, 0.91, -2.2, -0.6, 1.33, 0.04, -1.1, 0.66, -0.35, 1.9]


def configs(tier):
    th = tier == "thorough"
    r = []
    for N in (1, 2, 3):
        r.append({"name": "first-%d" % N, "h": "first", "N": N, "pop": 4})
    r.append({"name": "first-default", "h": "first", "N": 2, "pop": None})
    r.append({"name": "first-spread-missing", "h": "first", "N": 2, "pop": 4, "nosigma": True})
    for N, pop, gens, scale in ((1, 4, 3, 1.0), (2, 4, 3, 1.0), (3, 4, 2, 1.0), (2, 5, 2, 1.5), (2, 4, 2, 4.0), (1, 4, 3, 3.0), (4, 4, 2, 1.0)):
        if pop == 4 and gens == 3 and not th:
            r.append({"name": "n%d-p%d-g%d-x%g" % (N, pop, gens, scale), "h": "run", "N": N, "pop": pop, "gens": gens, "scale": scale, "half": True})
        else:
            r.append({"name": "n%d-p%d-g%d-x%g" % (N, pop, gens, scale), "h": "run", "N": N, "pop": pop, "gens": gens, "scale": scale})
    r.append({"name": "n2-p6-g2", "h": "run", "N": 2, "pop": None, "gens": 2, "scale": 1.0, "chain": 3})
    r.append({"name": "n2-p7-g2", "h": "run", "N": 2, "pop": 7.6, "gens": 2, "scale": 0.5, "chain": 4})
    r.append({"name": "n3-p4-g3", "h": "run", "N": 3, "pop": 4, "gens": 3, "scale": 1.0, "half": True})
    for N, pop in ((1, 4), (2, None), (3, None), (5, None), (2, 9), (3, 12)):
        # many generations on a bowl or a bent valley; the values are symbolic in a band around those of the function
        for fn in ("bowl", "valley"):
            r.append({"name": "long-%s-n%d-p%s" % (fn, N, pop), "h": "run", "N": N, "pop": pop, "gens": 6 if not th else 20, "scale": 1.0, "long": fn})
    if th:
        r.append({"name": "n2-p6-g3", "h": "run", "N": 2, "pop": 6, "gens": 3, "scale": 2.5, "chain": 4})
        r.append({"name": "n3-p5-g3", "h": "run", "N": 3, "pop": 5, "gens": 3, "scale": 1.0, "chain": 3})
    return r


def popsize(cfg):
    return 4 + int(math.floor(3 * math.log(cfg["N"]))) if cfg["pop"] is None else int(math.floor(cfg["pop"]))


class Reference:
    """(mu/mu_w, lambda)-CMA-ES, Hansen's tutorial; start covariance diag(spread^2), step size 1"""

    def __init__(self, x0, spread, lam):
        N = len(x0)
        self.N, self.lam, self.mu = N, lam, lam // 2
        w = [math.log(self.mu + 0.5) - math.log(i + 1) for i in range(self.mu)]
        self.w = np.array(w) / sum(w)
        self.mueff = 1.0 / sum(self.w**2)
        me = self.mueff
        self.cc = (4 + me / N) / (N + 4 + 2 * me / N)
        self.cs = (me + 2) / (N + me + 5)
        self.c1 = 2 / ((N + 1.3)**2 + me)
        self.cmu = min(1 - self.c1, 2 * (me - 2 + 1 / me) / ((N + 2)**2 + me))
        self.damps = 1 + 2 * max(0, math.sqrt((me - 1) / (N + 1)) - 1) + self.cs
        self.chi = math.sqrt(N) * (1 - 1 / (4.0 * N) + 1 / (21.0 * N**2))
        self.m = np.array(x0, float)
        self.s = 1.0
        self.C = np.diag(np.array(spread, float)**2)
        self.pc, self.ps = np.zeros(N), np.zeros(N)
        self.g = 0
        self.factor()

    def factor(self):
        v, B = np.linalg.eigh(self.C)
        self.inv = B @ np.diag(1 / np.sqrt(v)) @ B.T

    def update(self, X, order):
        """X: the generation in the order of evaluation, order: indices, best first"""
        N, lam = self.N, self.lam
        self.g += 1
        Y = [(X[i] - self.m) / self.s for i in order[:self.mu]]
        yw = sum(w * y for w, y in zip(self.w, Y))
        self.m = self.m + self.s * yw
        self.ps = (1 - self.cs) * self.ps + math.sqrt(self.cs * (2 - self.cs) * self.mueff) * (self.inv @ yw)
        nps = math.sqrt(sum(self.ps**2))
        h = 1.0 if nps / math.sqrt(1 - (1 - self.cs)**(2 * self.g)) / self.chi < 1.4 + 2.0 / (N + 1) else 0.0
        self.pc = (1 - self.cc) * self.pc + h * math.sqrt(self.cc * (2 - self.cc) * self.mueff) * yw
        rank1 = np.outer(self.pc, self.pc) + (1 - h) * self.cc * (2 - self.cc) * self.C
        rankmu = sum(w * np.outer(y, y) for w, y in zip(self.w, Y))
        self.C = (1 - self.c1 - self.cmu) * self.C + self.c1 * rank1 + self.cmu * rankmu
        self.s = self.s * math.exp(self.cs / self.damps * (nps / self.chi - 1))
        self.factor()
        return h


def make(ctx, cfg, max_eval):
    C = q("quocslib.gradientfreemethods.CMAES").CMAES
    st = {} if cfg["pop"] is None else {"population": cfg["pop"]}
    return C(st, {"max_eval": max_eval, "xatol": -1.0, "fatol": -1.0}, callback=lambda: True)


def first(ctx, cfg):
    env = setup(ctx)
    N, lam = cfg["N"], popsize(cfg)
    x0, sg = reals(ctx, "x0_", N, -3, 3), reals(ctx, "s_", N, 0.1, 3)
    zs = [ctx.real("z%d" % i, -4, 4) for i in range(lam * N)]
    if cfg.get("nosigma"):
        sg = [0.3] * N
    const_draws(env, zs)
    asked, vals = [], []

    def f(x, *a):
        k = len(asked)
        if k >= lam:
            raise Halt
        xs = list(cells(x))
        asked.append(xs)
        if k == 0:
            eq(ctx, xs, x0, "first-point", 1e-9)
        else:
            eq(ctx, xs, [x0[i] + sg[i] * zs[k * N + i] for i in range(N)], "first-generation", 1e-9)
        v = ctx.real("f%d" % k, -100, 100)
        if vals:
            ctx.assume(v >= vals[-1] + 1e-6)
        vals.append(v)
        return v
    dsm = make(ctx, cfg, lam)
    x0a = arr(ctx, x0)
    if ctx.symbolic:
        # only the first generation is looked at here
        try:
            dsm.run_dsm(f, x0a, sigma_v=None if cfg.get("nosigma") else arr(ctx, sg))
        except (Halt, sym.Unsupported):
            pass
    else:
        try:
            dsm.run_dsm(f, x0a, sigma_v=None if cfg.get("nosigma") else arr(ctx, sg))
        except Halt:
            pass
    ctx.check(len(asked) == lam, "generation-complete")
    eq(ctx, cells(x0a), x0, "start-untouched", 1e-12)


def run(ctx, cfg):
    env = setup(ctx)
    N, lam, gens = cfg["N"], popsize(cfg), cfg["gens"]
    x0 = [0.4, -0.7, 1.1, 0.2, -1.3][:N]
    sg = [0.5, 0.8, 0.3, 0.6, 0.4][:N]
    zs = [cfg["scale"] * Z[i % len(Z)] * (1 + 0.01 * (i // len(Z))) for i in range(lam * N * gens)]
    const_draws(env, zs)
    ref = Reference(x0, sg, lam)
    asked, vals = [], []
    gen, rel = [], []

    def f(x, *a):
        k = len(asked)
        if k >= lam * gens:
            raise Halt
        xs = [num(v) for v in cells(x)]
        ctx.check(len(xs) == N, "requested-point")
        z = np.array(zs[k * N:(k + 1) * N])
        y = (np.array(xs) - ref.m) / ref.s
        if k == 0:
            ctx.check(bool(np.all(np.abs(y) < 1e-9)), "requested-point", "first point %r" % (xs, ))
        else:
            # y = A z for some factor A of the covariance, the same for the whole generation: scalar products agree
            rel.append((y, z))
            for u, v in rel:
                a, b = float(u @ np.linalg.solve(ref.C, y)), float(v @ z)
                ctx.check(abs(a - b) <= 1e-6 * (1 + abs(b)), "requested-point", "evaluation %d: %r %r" % (k, a, b))
        j = len(gen)
        if cfg.get("long"):
            c = function(cfg["long"], xs)
            v = ctx.real("f%d" % k, c - 1e-9 * abs(c), c + 1e-9 * abs(c))
            if any(abs(function(cfg["long"], g[0]) - c) < 1e-8 * abs(c) for g in gen):
                raise Halt
        else:
            v = ctx.real("f%d" % k, -100, 100)
        # the order inside a generation is free among the first members, then chained (fewer orders to go through)
        if "chain" in cfg and j >= cfg["chain"]:
            for o in gen:
                ctx.assume(v >= o[1] + 1e-6)
        if lam == 5 and k >= lam and j >= 2:
            for o in gen:
                ctx.assume(v >= o[1] + 1e-6)
        if cfg.get("half") and k >= lam and j >= 3:
            for o in gen:
                ctx.assume(v >= o[1] + 1e-6)
        if cfg.get("half") and k >= 2 * lam and j >= 1:
            for o in gen:
                ctx.assume(v >= o[1] + 1e-6)
        for o in gen if not cfg.get("long") else []:
            # no ties
            ctx.assume(ctx.Or(v - o[1] >= 1e-6, o[1] - v >= 1e-6))
        asked.append(xs)
        vals.append(v)
        gen.append((np.array(xs), v))
        if len(gen) == lam:
            order = []
            for i in range(lam):
                p = 0
                while p < len(order) and ctx.branch(ctx_b(gen[order[p]][1] < gen[i][1])):
                    p += 1
                order.insert(p, i)
            ref.update([g[0] for g in gen], order)
            del gen[:], rel[:]
        return v
    dsm = make(ctx, cfg, lam * gens - 1)
    dsm.sc_obj.reset_direct_search_start_time()
    res = dsm.run_dsm(f, np.array(x0), sigma_v=np.array(sg))
    ctx.check(len(asked) == lam * gens, "generation-complete")
    ctx.check(res["NfunevalsUsed"] == len(asked), "evaluations-counted")
    best = res["F_min_val"]
    got = [num(v) for v in cells(res["X_opti_vec"])]
    last = list(zip(asked, vals))[-lam:]
    ctx.check(ctx.And(*[best <= v for _, v in last]), "result-pair")
    ctx.check(ctx.Or(*[best == v for p, v in zip(asked, vals) if all(abs(a - b) < 1e-9 for a, b in zip(p, got))]), "result-pair")


def function(name, x):
    """a function with its minimum away from the start"""
    if name == "bowl":
        return 1.0 + sum((1 + i) * (v - 0.3 * i - 2)**2 for i, v in enumerate(x))
    return 1.0 + sum(30 * (b - a * a)**2 for a, b in zip(x, list(x[1:]) + [0.5])) + sum((1 - v)**2 for v in x)


def num(v):
    if sym.is_sym(v):
        v = v.val if hasattr(v, "val") else sym.shadow(v)
    return float(v)


HARNESS = {"run": run, "first": first}
