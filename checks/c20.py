"""C20 drift compensation"""
from .alg import *
from .c09 import Reference, coefficients

BOUNDS = ("dCRAB (1-3 super-iterations) and DirectSearch with Nelder-Mead, both directions, dimension 1-2, 5-10 evaluations, 1-3 repeated "
          "measurements; figures of merit symbolic; time per evaluation symbolic in some configurations and fixed in others; runs ended at any "
          "evaluation by the budget, an error or the user; "
          "long runs of 16-20 (thorough: 40) evaluations, up to 4 dimensions and 5 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "ties between figures of merit, drift compensation together with re-evaluation, CMA-ES (documented: Nelder-Mead only)"
EXPECT = ["requested", "measured-again", "record-fom", "record-controls", "saved", "evaluations"]
BUDGET = {"quick": 240, "thorough": 800}


def configs(tier):
    th = tier == "thorough"
    r = []

    def add(name, **k):
        r.append(dict({"name": name, "h": "run", "alg": "dCRAB", "dim": 1, "n": 6, "minutes": 2.5, "avg": 1, "dir": "minimization", "step": 60.0},
                      **k))
    for alg in ("dCRAB", "DirectSearch"):
        s = alg.lower() + "-"
        for dr in ("minimization", "maximization"):
            add(s + dr[:3], alg=alg, dir=dr, n=8)
        add(s + "avg", alg=alg, avg=3, n=7)
        add(s + "two", alg=alg, avg=2, dim=2, n=7 if not th else 8, minutes=4.5)
        add(s + "often", alg=alg, minutes=0.5, n=6, avg=2)
        add(s + "time", alg=alg, n=5, step=None, minutes=3.0)
        add(s + "never", alg=alg, n=5, minutes=1000.0)
        add(s + "off", alg=alg, n=5, minutes=0.0)
        add(s + "adaptive", alg=alg, n=6, dim=2, adaptive=True, minutes=3.5)
        for e in ("budget", "error", "user"):
            add(s + "end-" + e, alg=alg, n=7 if e == "budget" else 6, avg=3, minutes=1.5, end=e, dir="maximization" if e == "error" else "minimization")
    for dr in ("minimization", "maximization"):
        add("si-" + dr[:3], si=2, minutes=0.0, after=True, max_eval=2, avg=2, n=7, dir=dr)
    add("si-three", si=3, minutes=0.0, after=True, max_eval=2, avg=1, n=8)
    add("si-minutes", si=2, minutes=2.5, max_eval=3, avg=1, n=8)
    add("si-minutes-avg", si=2, minutes=2.5, max_eval=3, avg=2, n=10)
    add("si-minutes-late", si=2, minutes=5.0, max_eval=3, avg=1, n=10)
    add("si-off", si=2, minutes=0.0, max_eval=3, n=6)
    add("si-two", si=2, minutes=0.0, after=True, max_eval=3, dim=2, n=7)
    for s, dr in enumerate(("minimization", "maximization")):
        # long runs: the order of the figures of merit is given
        m = 2 if th else 1
        add("long-dcrab-" + dr[:3], dim=3, minutes=3.5, n=20 * m, avg=1 + s, dir=dr, long=s)
        add("long-direct-" + dr[:3], alg="DirectSearch", dim=4, minutes=2.5, n=18 * m, avg=2 - s, dir=dr, long=s + 2)
        add("long-adaptive-" + dr[:3], alg="DirectSearch", dim=3, minutes=4.5, n=16 * m, avg=1, adaptive=True, dir=dr, long=s + 4)
        add("long-si-" + dr[:3], si=5, minutes=0.0, after=True, max_eval=4, dim=2, n=20 * m, avg=1 + s, dir=dr, long=s + 1)
        add("long-si-minutes-" + dr[:3], si=4, minutes=2.5, max_eval=6, dim=2, avg=1 + s, n=18, dir=dr, long=s + 3)
        if th:
            add("long-budget-" + dr[:3], dim=2, minutes=2.5, n=20, avg=2, dir=dr, long=s, end="budget")
            add("long-error-" + dr[:3], dim=2, minutes=2.5, n=16, avg=2, dir=dr, long=s, end="error")
            add("long-user-" + dr[:3], si=3, dim=2, minutes=0.0, after=True, max_eval=4, n=16, avg=2, dir=dr, long=s, end="user")
    for e in ("budget", "error", "user"):
        add("si-end-" + e, si=2, minutes=0.0, after=True, max_eval=2, avg=3, n=6, end=e)
    return r


class Over(Exception):
    pass


class Ref:
    """the whole run once more, with the measured figures of merit"""

    def __init__(self, ctx, cfg, f, times, starts, sgn):
        self.ctx, self.cfg, self.f, self.times, self.starts, self.sgn = ctx, cfg, f, times, starts, sgn
        self.k = 0
        self.best, self.where = 10**10, None
        self.saved = None           # (fom, index)
        self.stopped = False

    def measure(self, want, label):
        c = self.cfg
        if self.stopped or self.k >= self.n or self.k >= len(self.f.calls):
            raise Over
        call = self.f.calls[self.k]
        lim = 4.0 if c["alg"] == "DirectSearch" else 5.0
        eq(self.ctx, flat(call), clip(self.ctx, want, -lim, lim), label, 1e-6)
        self.k += 1
        if call.get("bad"):
            self.stopped = True
            raise Over
        if call.get("last"):
            self.stopped = True
        return self.sgn * call["FoM"]

    def less(self, a, b):
        return self.ctx.branch(ctx_b(a < b))

    def evaluate(self, want, label="requested"):
        v = self.measure(want, label)
        if self.best == 10**10 or self.less(v, self.best):
            self.best, self.where = v, self.k - 1
            self.saved = (v, self.k - 1)
        return v

    def again(self, want, si):
        """the current best measured anew"""
        vs = []
        for _ in range(self.cfg["avg"]):
            if si:
                v = self.measure(want, "measured-again")
                self.saved = (v, self.k - 1)
                if self.less(v, self.best):
                    self.best, self.where = v, self.k - 1
                vs.append(v)
            else:
                vs.append(self.evaluate(want, "measured-again"))
        if self.stopped and not si:
            raise Over
        self.best, self.where = sum(vs) / len(vs), self.k - 1
        if not si:
            self.saved = (self.best, self.k - 1)
        return self.best

    def go(self):
        c = self.cfg
        base = None
        for s in range(c.get("si", 1)):
            if s > 0:
                if self.stopped:
                    raise Over
                # controls of the best so far are the new origin
                base = flat(self.f.calls[self.where])
                if c.get("after") or c["minutes"] > 0:
                    self.again(base, True)
                if s >= len(self.starts):
                    raise Over
            self.search(base, self.starts[s])

    def search(self, base, start):
        c = self.cfg
        simplex, t0 = start
        first = self.k
        ref = Reference(self.ctx, simplex, coefficients(c["dim"], c.get("adaptive", False)))
        ctl = lambda x: list(x) if base is None else [b + v for b, v in zip(base, x)]
        last = {"t": t0}
        me = self

        def between(S):
            if c["minutes"] > 0:
                # the time at which the last evaluation was done
                now = me.times[me.k - 1]
                if br(me.ctx, (now - last["t"]) / 60 >= c["minutes"]):
                    new = me.again(ctl(S[0][0]), False)
                    d = new - S[0][1]
                    last["t"] = me.times[me.k - 1]
                    S = [(S[0][0], new)] + [(x, v + d) for x, v in S[1:]]
            if "max_eval" in c and me.k - first + me.extra >= c["max_eval"]:
                raise Done
            return S
            yield
        ref.between = between
        self.extra = 0
        try:
            while True:
                ref.tell(self.evaluate(ctl(ref.next)))
        except Done:
            pass


class Done(Exception):
    pass


def br(ctx, c):
    return ctx.branch(ctx_b(c)) if sym.is_sym(c) else bool(c)


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125, 0.4375])
    alg, n = cfg["alg"], cfg["n"]
    sgn = -1 if cfg["dir"] == "maximization" else 1
    comp = {"num_average": cfg["avg"]}
    if cfg["minutes"] > 0:
        comp["compensate_after_minutes"] = cfg["minutes"]
    if cfg.get("after"):
        comp["compensate_after_SI"] = True
    kw = {"compensate_drift": comp, "general": {"is_adaptive": True} if cfg.get("adaptive") else {}}
    if "max_eval" in cfg:
        kw["stop"] = {"max_eval": cfg["max_eval"]}
    if alg == "dCRAB":
        kw["super_iteration_number"] = cfg.get("si", 1)
    end = cfg.get("end")
    most = n
    if end == "budget":
        most = ctx.int("budget", 1, n)
        most = ctx.concretize_int(most) if ctx.symbolic else most
    stop_at = ctx.int("stop_at", 0, n - 1) if end in ("error", "user") else None
    d = small(alg, cfg["dim"], direction=cfg["dir"], dsm="NelderMead", max_eval_total=most, **kw)
    times, vals = [], []

    def value(k, c):
        # no two of them are the same
        if "long" in cfg:
            # neither the values nor their differences come close to each other
            at = pow(k + 2 + 7 * cfg["long"], 11, 211) - 105.0 + 0.0131 * k
            return ctx.real("f%d" % k, at, at + 0.002)
        return ctx.real("f%d" % k, -100, 100)

    def hook(k, c, r):
        env.clock = env.clock + (cfg["step"] if cfg["step"] is not None else 60 * ctx.choice("dt%d" % k, [0.5, 2.0]))
        times.append(env.clock)
        if stop_at is not None and br(ctx, stop_at == k):
            if end == "user":
                run_.opt.communication_obj.he_obj.set_is_user_running(False)
                c["last"] = True
            else:
                r["status_code"] = 1
                c["bad"] = True
    f = FoM(ctx, value=value, hook=hook, cap=3 * n)
    run_ = Run(ctx, d, f)
    starts = []
    orig = run_.alg.dsm_obj.run_dsm

    def run_dsm(func, x0, initial_simplex=None, **k):
        starts.append(([list(cells(p)) for p in initial_simplex], env.clock))
        return orig(func, x0, initial_simplex=initial_simplex, **k)
    run_.alg.dsm_obj.run_dsm = run_dsm
    run_.go()
    ref = Ref(ctx, cfg, f, times, starts, sgn)
    ref.n = most
    # ties leave the order of the vertices open
    try:
        ref.go()
        done = True
    except Over:
        done = ref.stopped or ref.k >= most
    ctx.check(done and ref.k == len(f.calls), "evaluations", "%d of %d" % (ref.k, len(f.calls)))
    if ref.where is None:
        ctx.check(run_.saved_best() is None, "saved")
        return
    ctx.check(ctx.allclose([run_.final()["Figure of merit"]], [sgn * ref.best], 1e-6), "record-fom")
    got = run_.best()
    eq(ctx, got["pulses"] + got["parameters"], flat(f.calls[ref.where]), "record-controls", 1e-6)
    s = run_.saved_best()
    ctx.check(s is not None, "saved")
    if s is not None:
        ctx.check(ctx.allclose([re_(x) for x in cells(s["FoM"])], [sgn * ref.saved[0]], 1e-6), "saved")
        names = [p["pulse_name"] for p in d["pulses"]] + [p["parameter_name"] for p in d["parameters"]]
        eq(ctx, [re_(x) for nm in names for x in cells(s[nm])], flat(f.calls[ref.saved[1]]), "saved", 1e-6)


HARNESS = {"run": run}
