"""C26 whoever watches a run sees what is evaluated and what comes back, and watching changes nothing"""
from .alg import *
from .c25 import A, One, compare, numbers, outcome, same_data, settings, values, world

BOUNDS = ("runs of 3-6 evaluations of every algorithm (dCRAB with Nelder-Mead and CMA-ES, DirectSearch, GRAPE, AD), both directions, 1-2 super-iterations, "
          "re-evaluation; all figures of merit symbolic; ended by the budget, the user or an error code at a symbolic evaluation; compared with the "
          "same run without interface and with every setting that concerns output only changed; "
          "long runs of 9-22 evaluations with up to 4 super-iterations, the order of their figures of merit given, the values symbolic in bands that do not meet")
OUTSIDE = "the text of the log, interfaces that raise, values reported while a drift is compensated"
EXPECT = ["controls-announced", "fom-announced", "start-announced", "same-requests", "same-result", "same-length", "same-files"]
BUDGET = {"quick": 200, "thorough": 700}
OUT = {
    "quiet": {"console_info": False, "create_logfile": False},
    "micro": {"use_microsecond_name": True},
    "json": {"dump_format": "json"},
    "npz": {"dump_format": "npz"},
    "name": {"optimization_client_name": "another_run-7"},
}


def configs(tier):
    r = []

    def add(a, **k):
        r.append(dict({"name": "%s%s" % (a, "".join("-%s" % v for v in k.values())), "h": "run", "a": a}, **k))
    for x in A:
        add(x)
        for d in ("minimization", "maximization"):
            if tier == "thorough" or x in ("nm", "direct", "grape", "ad", "cma", "re", "nm-2si"):
                if d != A[x].get("dir", "minimization"):
                    add(x, dir=d)
        for e in ("user", "error"):
            if tier == "thorough" or x in ("nm", "direct", "grape", "ad", "cma", "nm-2si"):
                add(x, end=e)
    for x in A if tier == "thorough" else ("nm-par", "direct", "grape", "ad", "max"):
        for o in OUT:
            if A[x].get("fmt", "npz") != o:
                add(x, out=o)
    return r


def one(ctx, a, d, vals, signals, end, at, log=None):
    """like c25.One, watched by an interface"""
    h = {"k": -1}

    def status(k):
        return -3 if end == "error" and ctx.branch(ctx_b(at == k)) else 0

    def hook(k):
        if end == "user" and ctx.branch(ctx_b(at == k)):
            o.run.opt.communication_obj.he_obj.set_is_user_running(False)
        if log is not None:
            log.append(("eval", k))
    o = One(ctx, a, d, 3, vals, hook=hook)
    if end == "error":
        o.f.status = status
    if signals:
        c = o.run.opt.communication_obj
        (c.message_signal, c.FoM_plot_signal, c.controls_update_signal) = signals
    return o.go()


class Watch:
    def __init__(self, log, kind):
        self.log, self.kind = log, kind

    def emit(self, *a):
        self.log.append((self.kind, loader.snapshot(list(a))))


def run(ctx, cfg):
    a = dict(A[cfg["a"]])
    if "dir" in cfg:
        a["dir"] = cfg["dir"]
        a.pop("alg_kw", None)
    end = cfg.get("end")
    vals = values(ctx, a, "f", True)
    at = ctx.int("at", 0, a["n"] - 1) if end else None
    log = []
    world(ctx)
    d = settings(a)
    if "out" in cfg:
        d.update(copy.deepcopy(OUT[cfg["out"]]))
        seen = outcome(one(ctx, a, d, vals, None, end, at))
    else:
        # the interface is handed over the way a user does it
        x = watched(ctx, a, d, vals, log, end, at)
        seen = outcome(x)
    world(ctx)
    alone = outcome(one(ctx, a, settings(a), vals, None, end, at))
    if "out" in cfg:
        for w in (alone, seen):
            w["files"] = {k.replace("job", "*").replace("another_run-7", "*"): e for k, e in w["files"].items() if "best_controls" not in k and
                          not k.endswith(".log")} if cfg["out"] in ("json", "npz") else {
                k: e for k, e in w["files"].items() if not k.endswith(".log")}
    compare(ctx, alone, seen)
    if "out" in cfg:
        return
    evs = [k for k, e in enumerate(log) if e[0] == "eval"]
    ctx.check(len(evs) == len(x.f.calls), "controls-announced")
    # one announcement of the controls before each evaluation, with just these controls
    prev = -1
    sgn = 1
    for n, k in enumerate(evs):
        before = [e[1] for e in log[prev + 1:k] if e[0] == "controls"]
        ctx.check(len(before) == 1, "controls-announced", "%d before evaluation %d" % (len(before), n))
        if before:
            c = x.f.calls[n]
            for what, i in (("pulses", 0), ("timegrids", 1)):
                got = [cells(p) for p in before[-1][i]]
                ctx.check([len(p) for p in got] == [len(p) for p in c[what]], "controls-announced", what)
                eq(ctx, [re_(v) for p in got for v in p], [re_(v) for p in c[what] for v in p], "controls-announced", 1e-7, what)
            eq(ctx, [re_(v) for p in cells(before[-1][2]) for v in cells(p)], [re_(v) for v in c["parameters"]], "controls-announced", 1e-7, "parameters")
        nxt = evs[n + 1] if n + 1 < len(evs) else len(log)
        after = [e[1] for e in log[k + 1:nxt] if e[0] == "fom"]
        if x.f.calls[n]["status"]:
            ctx.check(len(after) == 0, "fom-announced", "failed evaluation announced")
        else:
            ctx.check(len(after) == 1, "fom-announced", "%d after evaluation %d" % (len(after), n))
            if len(after) == 1:
                ctx.check(int(after[0][0]) == n + 1, "fom-announced", "number")
                if "re" not in a:
                    ctx.check(ctx.allclose([re_(after[0][1])], [sgn * x.f.calls[n]["FoM"]], 1e-6), "fom-announced")
        prev = k
    ctx.check(not [e for e in log[:evs[0]] if e[0] == "fom"] if evs else True, "fom-announced", "before the first evaluation")
    starts = [k for k, e in enumerate(log) if e[0] == "message"]
    ctx.check(len(starts) >= 1 and log[starts[0]][1] == ["start"] and (not evs or starts[0] < evs[0]), "start-announced")


def watched(ctx, a, d, vals, log, end, at):
    import checks.alg as alg
    keep = alg.Run.__init__

    def init(self, ctx, d, fom, env=None, signals=False, handle_exit=None):
        self.ctx, self.d, self.fom = ctx, d, fom
        self.env, self.error = env or ENV(), None
        self.opt = q("quocslib.Optimizer").Optimizer(d, fom, comm_signals_list=[Watch(log, k) for k in ("message", "fom", "controls")])
        self.alg = self.opt.get_optimization_algorithm()
    alg.Run.__init__ = init
    try:
        return one(ctx, a, d, vals, None, end, at, log)
    finally:
        alg.Run.__init__ = keep


HARNESS = {"run": run}
