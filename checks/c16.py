"""C16 evaluation by file exchange"""
from .alg import *

BOUNDS = ("1-2 evaluations, up to 2 pulses and 2 parameters with symbolic values, json and txt; the moment of the answer, the longest waiting "
          "time (0.5 to 3 s) and the answer symbolic; 4 layouts of the answer file, 3 unreadable ones; an old answer file present or not; "
          "whole runs of 3 evaluations in which one answer is missing or unreadable; "
          "one evaluation with up to 12 pulses and 11 parameters")
OUTSIDE = "answer files that are written non-atomically, file system errors, digits lost by the txt format beyond the sixth decimal"
EXPECT = ["controls-written", "answer", "no-old-answer", "gives-up-in-time", "unreadable", "run-result"]
BUDGET = {"quick": 120, "thorough": 400}
SLACK = 0.75      # one polling interval and a bit
LAYOUT = ["%s", "%s\n", "  %s  \n", "%s\nsecond line\n"]
BAD = ["", "none\n", "\n1.0\n"]


def configs(tier):
    r = []
    for ext in ("json", "txt"):
        for np_, nq in ((1, 0), (0, 1), (2, 2)):
            r.append({"name": "controls-%s-%d-%d" % (ext, np_, nq), "h": "one", "ext": ext, "np": np_, "nq": nq, "rounds": 1, "t": "early"})
        for np_, nq in ((4, 0), (3, 5), (0, 11), (12, 1)):
            r.append({"name": "many-%s-%d-%d" % (ext, np_, nq), "h": "one", "ext": ext, "np": np_, "nq": nq, "rounds": 1, "t": "early"})
        r.append({"name": "two-" + ext, "h": "one", "ext": ext, "np": 1, "nq": 1, "rounds": 2, "t": "early"})
        for old in (False, True):
            r.append({"name": "time-%s-%d" % (ext, old), "h": "one", "ext": ext, "np": 1, "nq": 0, "rounds": 1, "t": "any", "old": old})
    r.append({"name": "two-any", "h": "one", "ext": "json", "np": 1, "nq": 1, "rounds": 2, "t": "any", "old": True})
    for b in range(len(BAD)):
        r.append({"name": "unreadable-%d" % b, "h": "one", "ext": "json", "np": 1, "nq": 0, "rounds": 1, "t": "early", "bad": b})
    r.append({"name": "folders", "h": "one", "ext": "json", "np": 1, "nq": 1, "rounds": 1, "t": "early", "folders": True})
    for alg in ("dCRAB", "DirectSearch"):
        for dr in ("minimization", "maximization"):
            r.append({"name": "run-%s-%s" % (alg.lower(), dr[:3]), "h": "run", "alg": alg, "dir": dr})
    return r


class User:
    """the program at the other end: sees the controls file, answers once per controls file"""

    def __init__(self, ctx, env, cpath, fpath):
        self.ctx, self.env, self.cpath, self.fpath = ctx, env, cpath, fpath
        self.seen, self.todo = [], None
        self.delay = self.text = None
        env.file_hook = self.hook

    def hook(self, op, path):
        e = self.env
        ent = e.vfs.get(self.cpath)
        if self.todo is None and ent is not None and (ent.get("obj") is not None or ent.get("text")):
            # the controls are there, from now on the answer is being computed
            self.seen.append(loader.snapshot(parsed(ent)))
            self.todo = e.clock
            self.answered = False
        if self.todo is not None and not self.answered and self.delay is not None:
            if br(self.ctx, self.todo + self.delay <= e.clock):
                e.vfs[self.fpath] = {"kind": "text", "text": self.text}
                self.answered = True

    def next(self, delay, text):
        self.delay, self.text, self.todo, self.answered = delay, text, None, False
        self.env.vfs.pop(self.cpath, None)


def br(ctx, c):
    return ctx.branch(ctx_b(c)) if sym.is_sym(c) else bool(c)


def word(ctx, env, name, v):
    if ctx.symbolic:
        env.tokens["@" + name] = v
        return "@" + name
    return repr(float(v))


def one(ctx, cfg):
    env = setup(ctx)
    FF = q("quocslib.utils.FilesUpdateFom").FilesUpdateFoM
    ext, np_, nq = cfg["ext"], cfg["np"], cfg["nq"]
    kw = {"controls_folder": "/vfs/c", "FoM_folder": "/vfs/f"} if cfg.get("folders") else {}
    cp = "/vfs/c/controls." + ext if cfg.get("folders") else "./controls." + ext
    fp = "/vfs/f/FoM.txt" if cfg.get("folders") else "./FoM.txt"
    limit = ctx.real("max_time", 0.5, 3)
    obj = FF(file_extension=ext, max_time=limit, **kw)
    user = User(ctx, env, cp, fp)
    if cfg.get("old"):
        env.vfs[fp] = {"kind": "text", "text": word(ctx, env, "old", ctx.real("old", 500, 600))}
    for k in range(cfg["rounds"]):
        v = ctx.real("f%d" % k, -100, 100)
        delay = ctx.real("delay%d" % k, 0, 4)
        if cfg["t"] == "early":
            ctx.assume(delay + SLACK <= limit)
        if "bad" in cfg:
            text = BAD[cfg["bad"]]
        else:
            text = ctx.choice("layout%d" % k, LAYOUT) % word(ctx, env, "f%d" % k, v)
        user.next(delay, text)
        P = [reals(ctx, "p%d_%d_" % (k, i), 2 + i, -5, 5) for i in range(np_)]
        G = [reals(ctx, "t%d_%d_" % (k, i), 2 + i, 0, 5) for i in range(np_)]
        Q = reals(ctx, "q%d_" % k, nq, -5, 5)
        t0 = env.clock
        r = obj.get_FoM(pulses=[arr(ctx, p) for p in P], timegrids=[arr(ctx, g) for g in G], parameters=list(Q))
        took = env.clock - t0
        ctx.check(len(user.seen) == k + 1, "controls-written")
        given(ctx, user.seen[k], ext, P, G, Q)
        ok = r.get("status_code", 0) == 0
        if "bad" in cfg:
            ctx.check(not ok and r.get("status_code") != 0, "unreadable")
            continue
        if ok:
            ctx.check(ctx.allclose([r["FoM"]], [v], 1e-9), "no-old-answer" if cfg.get("old") else "answer")
            ctx.check(delay <= took + 1e-9, "answer")
            ctx.check(took <= delay + SLACK, "answer")
        else:
            # only if there was no answer within the time
            ctx.check(delay + SLACK >= limit, "answer")
            ctx.check(ctx.And(took >= limit - SLACK, took <= limit + SLACK), "gives-up-in-time")
            return


def given(ctx, ent, ext, P, G, Q):
    if ext == "json":
        ent = ent if isinstance(ent, dict) else {}
        want = {}
        for i, (p, g) in enumerate(zip(P, G)):
            want["pulse%d" % (i + 1)], want["time_grid%d" % (i + 1)] = p, g
        for i, v in enumerate(Q):
            want["parameter%d" % (i + 1)] = [v]
        ctx.check(set(ent) == set(want), "controls-written")
        for k in want:
            if k in ent:
                eq(ctx, [re_(x) for x in cells(ent[k])], want[k], "controls-written", 1e-9)
        return
    rows = [p for pg in zip(P, G) for p in pg] + [[v] for v in Q]
    got = ent if isinstance(ent, list) else []
    ctx.check(len(got) == len(rows), "controls-written")
    for a, b in zip(got, rows):
        eq(ctx, a["row"], b, "controls-written", 1e-9)
        ctx.check(all(abs(float(a["fmt"] % x) - x) < 1e-6 for x in (0.123456, -1234.5, 0.0)), "controls-written")


def run(ctx, cfg):
    env = setup(ctx)
    const_draws(env, [0.3125, 0.625, 0.875, 0.125])
    sgn = -1 if cfg["dir"] == "maximization" else 1
    FF = q("quocslib.utils.FilesUpdateFom").FilesUpdateFoM
    obj = FF(max_time=1.0)
    cp, fp = "./controls.json", "./FoM.txt"
    user = User(ctx, env, cp, fp)
    bad = ctx.int("bad", 0, 3)
    kind = ctx.choice("kind", ["missing", "unreadable"])
    vals, given_ = [ctx.real("f%d" % i, -100, 100) for i in range(4)], []
    orig = obj.get_FoM

    def get(**kw):
        k = len(given_)
        fail = br(ctx, bad == k)
        user.next(5.0 if fail and kind == "missing" else 0.2, "abc" if fail else word(ctx, env, "f%d" % k, vals[k]))
        given_.append((fail, vals[k]))
        return orig(**kw)
    obj.get_FoM = get
    d = small(cfg["alg"], 2, direction=cfg["dir"], dsm="NelderMead", max_eval_total=3)
    run_ = Run(ctx, d, obj)
    run_.go()
    ctx.check(len(given_) <= 3 and all(not f for f, _ in given_[:-1]), "run-result")
    good = [v for f, v in given_ if not f]
    if not given_[-1][0]:
        ctx.check(len(given_) == 3, "run-result")
    eq(ctx, run_.alg.FoM_list, good, "run-result", 1e-9)
    if good:
        best = run_.final()["Figure of merit"]
        ctx.check(ctx.And(ctx.Or(*[best == v for v in good]), *[sgn * best <= sgn * v for v in good]), "run-result")
        f = run_.saved_best()
        ctx.check(ctx.allclose([re_(x) for x in cells(f["FoM"])], [best], 1e-9), "run-result")
    else:
        ctx.check(run_.saved_best() is None, "run-result")


HARNESS = {"one": one, "run": run}
